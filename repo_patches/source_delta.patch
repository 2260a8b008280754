From 224f89712e31d4ce61d1ed1d422001f8acc6db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 01/39] fix: keep the chunks folded into the top tree level
 when storing a file

---
 src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index ee6337c..f7f39de 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -86,7 +86,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
 
     current_chunk.extend_from_slice(&chunk_buffer);
 
-    if (0..4).all(|x| key_bufs[x].is_empty()) {
+    if key_bufs.iter().all(|x| x.is_empty()) {
         // No chunks were made.
         return Ok(ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?);
     }
@@ -99,7 +99,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     for offset in 0..4 {
         let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;
 
-        if key_bufs[offset].len() == 1 && (1 + offset..4).all(|x| key_bufs[x].is_empty()) {
+        if key_bufs[offset].len() == 1 && (1 + offset..5).all(|x| key_bufs[x].is_empty()) {
             // We know this is safe because key_bufs[offset] has exactly 1 element
             #[allow(clippy::option_unwrap_used)]
             return Ok(key_bufs[offset].pop().unwrap());
-- 
2.43.0


From e086754d63c17b1f9063542b87f469fea6d68116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 02/39] fix: cut file chunks independently of how much each
 read returns

---
 src/file.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index f7f39de..f8fa0d8 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -13,6 +13,24 @@ pub enum PutDataError {
     IOError(#[from] std::io::Error),
 }
 
+/// Reads until `buf` is full or there is no more data, returning the number of bytes read.
+fn read_full<R: Read>(data: &mut R, buf: &mut [u8]) -> Result<usize, std::io::Error> {
+    use std::io::ErrorKind;
+
+    let mut filled = 0;
+
+    while filled < buf.len() {
+        match data.read(&mut buf[filled..]) {
+            Ok(0) => break,
+            Ok(len) => filled += len,
+            Err(e) if e.kind() == ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+
+    Ok(filled)
+}
+
 pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key, PutDataError> {
     let mut key_bufs: [Vec<Key>; 5] = Default::default();
 
@@ -65,22 +83,17 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
                 }
             }
         } else {
-            use std::io::ErrorKind;
             current_chunk.extend_from_slice(&chunk_buffer);
             chunk_buffer.clear();
 
-            match data.read(&mut read_buffer) {
-                Ok(len) => {
-                    if len == 0 {
-                        break;
-                    }
-                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);
-                }
-                Err(e) if e.kind() == ErrorKind::Interrupted => {}
-                Err(e) => {
-                    return Err(e.into());
-                }
+            // Where we cut depends on how much is buffered, so fill the buffer even if the reader
+            // returns less than we asked for. Otherwise the same data would not always be stored
+            // under the same key.
+            let len = read_full(&mut data, &mut read_buffer)?;
+            if len == 0 {
+                break;
             }
+            chunk_buffer.extend_from_slice(&read_buffer[0..len]);
         }
     }
 
-- 
2.43.0


From 25757c4794897b6c1a09755d6b64e1f5f4c3037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 03/39] fix: create empty directories when fetching a tree

---
 src/dir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index d9d65fd..18a3304 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -240,6 +240,8 @@ pub fn get_fs_item<DS: DataStore>(
 
     match fsobj.itemtype {
         FSItemType::Dir => {
+            std::fs::create_dir_all(path)?;
+
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 get_fs_item(ds, child, &path.join(&name))?;
             }
-- 
2.43.0


From 603df3fd1504ba047ea28b6806a252c98e73008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 04/39] fix: store directory entries in name order so that
 equal trees get equal keys

---
 src/dir.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 18a3304..decd09a 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -89,17 +89,14 @@ pub fn put_fs_item<DS: DataStore>(
         let mut result = Vec::new();
         let mut result_names = Vec::new();
 
-        let entries = std::fs::read_dir(path)?;
-
-        for entry in entries {
-            match entry {
-                Ok(direntry) => {
-                    if filter(&direntry) {
-                        result.push(put_fs_item(ds, &direntry.path(), filter)?);
-                        result_names.push(direntry.file_name().into());
-                    }
-                }
-                Err(e) => return Err(e.into()),
+        // The order of entries is part of the key, and read_dir returns them in any order.
+        let mut entries = std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
+        entries.sort_by_key(|x| x.file_name());
+
+        for direntry in entries {
+            if filter(&direntry) {
+                result.push(put_fs_item(ds, &direntry.path(), filter)?);
+                result_names.push(direntry.file_name().into());
             }
         }
 
-- 
2.43.0


From f45e25978860963ebd46c8a13bdf52820b9949e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 05/39] fix: refuse checkout before truncating any file

---
 src/dir.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index decd09a..727afd7 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -284,6 +284,9 @@ pub fn checkout_fs_item<DS: DataStore>(
     path: &Path,
     filter: &dyn Fn(&DirEntry) -> bool,
 ) -> Result<(), CheckoutFsItemError> {
+    // This has to be checked before anything is created, truncated, or removed.
+    assert!(path.starts_with("/home/jess/src/snapcd/repo"));
+
     let obj = ds.get_obj(key.into())?;
 
     let fsobj: FSItem = obj.try_into()?;
@@ -305,7 +308,6 @@ pub fn checkout_fs_item<DS: DataStore>(
             let extra: Vec<_> = fs_items.difference(&db_items).collect();
 
             for item in extra.iter() {
-                assert!(path.starts_with("/home/jess/src/snapcd/repo"));
                 let p = path.join(item);
                 let ft = std::fs::metadata(&p)?.file_type();
 
@@ -327,8 +329,6 @@ pub fn checkout_fs_item<DS: DataStore>(
         FSItemType::File => {
             let mut f = std::fs::File::create(path)?;
 
-            assert!(path.starts_with("/home/jess/src/snapcd/repo"));
-
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
-- 
2.43.0


From 175255248543e822bbe30232f3b223ff3de6ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 06/39] fix: create missing directories on checkout instead of
 failing to list them

---
 src/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 727afd7..f9dc01a 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -297,6 +297,8 @@ pub fn checkout_fs_item<DS: DataStore>(
 
             let mut fs_items = HashSet::new();
 
+            std::fs::create_dir_all(&path)?;
+
             for item in std::fs::read_dir(&path)? {
                 let ok_item = item?;
 
@@ -321,8 +323,6 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                std::fs::create_dir_all(&path)?;
-
                 checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
-- 
2.43.0


From 683486e033ca491434cd903f0d22bcbbc5bdf6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 07/39] fix: reject stored file names that would leave the
 destination when extracting

---
 src/dir.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index f9dc01a..3276f5c 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -226,6 +226,23 @@ pub enum GetFsItemError {
     DecodeError(#[from] serde_cbor::error::Error),
 }
 
+/// Joins the name of a child, as found in the database, to the path of its parent.
+///
+/// The name must be a plain file name, otherwise we could end up outside of the parent.
+fn child_path(path: &Path, name: &Path) -> Result<PathBuf, std::io::Error> {
+    use std::path::Component;
+
+    let mut components = name.components();
+
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(n)), None) if n == name.as_os_str() => Ok(path.join(name)),
+        _ => Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            format!("invalid file name {:?} in tree", name),
+        )),
+    }
+}
+
 pub fn get_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -240,7 +257,7 @@ pub fn get_fs_item<DS: DataStore>(
             std::fs::create_dir_all(path)?;
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                get_fs_item(ds, child, &path.join(&name))?;
+                get_fs_item(ds, child, &child_path(path, name)?)?;
             }
         }
         FSItemType::File => {
@@ -323,7 +340,7 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                checkout_fs_item(ds, child, &path.join(&name), filter)?;
+                checkout_fs_item(ds, child, &child_path(path, name)?, filter)?;
             }
         }
         FSItemType::File => {
-- 
2.43.0


From 4c0450f7482fc5ffd41436355f8dd00d75c49b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 08/39] fix: do not panic when comparing with something that
 was deleted

---
 src/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index fc487b2..a3eba78 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -120,7 +120,7 @@ pub fn compare<'a>(
         .map(|x| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            is_dir: to_map[x].1,
         })
         .collect();
 
-- 
2.43.0


From a12a628c42988d51b136f01fc656180983e0184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:03 +0000
Subject: [PATCH 09/39] fix: hash added files relative to the compared path,
 not the current directory

---
 src/diff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index a3eba78..15214b7 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -98,7 +98,10 @@ pub fn compare<'a>(
                         // this is a file
                         match dir::hash_fs_item(
                             ds,
-                            x,
+                            &from_path
+                                .as_ref()
+                                .expect("should have been populated")
+                                .join(x),
                             *cache.expect("you must pass a cache if you're hashing the fs"),
                         ) {
                             Ok(h) => Some(h.into()),
-- 
2.43.0


From 3f9e2321caf7f417e13c16eb63fcdda3fce3a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 10/39] fix: do not treat directories as modified files when
 comparing trees

---
 src/diff.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index 15214b7..48e724e 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -149,7 +149,16 @@ pub fn compare<'a>(
                 )?
                 .into();
             }
-            either::Right(db_items) => f = db_items[path].0,
+            either::Right(db_items) => {
+                let (key, is_dir) = db_items[path];
+
+                // Directories can't be modified, only what's in them can be.
+                if is_dir {
+                    continue;
+                }
+
+                f = key;
+            }
         }
 
         let t = to_map[path];
-- 
2.43.0


From a76dcaa49f529bb34fc3a67d988cfe18337cbd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 11/39] fix: report a path that changed between file and
 directory as deleted and added

---
 src/diff.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 48e724e..e12dfad 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -81,16 +81,21 @@ pub fn compare<'a>(
         None => HashMap::new(),
     };
 
-    let from_keys: HashSet<PathBuf> = from_map.clone().either(
-        |x| x.keys().cloned().collect(),
-        |x| x.keys().cloned().collect(),
+    // These have if it's a directory or not, because a file that was replaced with a directory (or
+    // the other way around) counts as both deleted and added, and not as modified.
+    let from_keys: HashSet<(PathBuf, bool)> = from_map.clone().either(
+        |x| x.into_iter().collect(),
+        |x| x.into_iter().map(|(path, (_, dir))| (path, dir)).collect(),
     );
 
-    let to_keys: HashSet<PathBuf> = to_map.keys().cloned().collect();
+    let to_keys: HashSet<(PathBuf, bool)> = to_map
+        .iter()
+        .map(|(path, (_, dir))| (path.clone(), *dir))
+        .collect();
 
     let mut in_from_only: Vec<AddedDiffResult> = from_keys
         .difference(&to_keys)
-        .map(|x| AddedDiffResult {
+        .map(|(x, is_dir)| AddedDiffResult {
             path: x.clone(),
             new_key: from_map.as_ref().either(
                 |y| {
@@ -114,16 +119,16 @@ pub fn compare<'a>(
                 },
                 |y| Some(y[x].0),
             ),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            is_dir: *is_dir,
         })
         .collect();
 
     let mut in_to_only: Vec<DeletedDiffResult> = to_keys
         .difference(&from_keys)
-        .map(|x| DeletedDiffResult {
+        .map(|(x, is_dir)| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: to_map[x].1,
+            is_dir: *is_dir,
         })
         .collect();
 
@@ -131,7 +136,7 @@ pub fn compare<'a>(
 
     let mut modified = Vec::new();
 
-    for path in in_both {
+    for (path, _) in in_both {
         let f;
         match &from_map {
             either::Left(fs_items) => {
-- 
2.43.0


From 1ba479142438601f11ee6e93d2fb0e49421377d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 12/39] fix: notice file changes within the same second when
 using the cache

---
 src/cache.rs | 7 +++++--
 src/dir.rs   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index bd9fb50..d22bba7 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -9,6 +9,7 @@ use crate::{ds, key};
 pub struct CacheKey {
     pub inode: u64,
     pub mtime: i64,
+    pub mtime_nsec: i64,
     pub size: u64,
 }
 
@@ -44,9 +45,10 @@ pub trait Cache: ds::Transactional {
     fn raw_put(&self, cachekey: &[u8], value: &[u8]) -> Result<(), RawPutCacheError>;
 
     fn get(&self, cachekey: CacheKey) -> Result<Option<key::Key>, GetCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
+        let mut data = Vec::with_capacity(8 * 4);
         data.extend(cachekey.inode.to_le_bytes().iter());
         data.extend(cachekey.mtime.to_le_bytes().iter());
+        data.extend(cachekey.mtime_nsec.to_le_bytes().iter());
         data.extend(cachekey.size.to_le_bytes().iter());
 
         let cache_result = self.raw_get(&data)?;
@@ -61,10 +63,11 @@ pub trait Cache: ds::Transactional {
     }
 
     fn put(&self, cachekey: CacheKey, value: key::Key) -> Result<(), PutCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
+        let mut data = Vec::with_capacity(8 * 4);
 
         data.extend(cachekey.inode.to_le_bytes().iter());
         data.extend(cachekey.mtime.to_le_bytes().iter());
+        data.extend(cachekey.mtime_nsec.to_le_bytes().iter());
         data.extend(cachekey.size.to_le_bytes().iter());
 
         self.raw_put(&data, &value.as_db_key())?;
diff --git a/src/dir.rs b/src/dir.rs
index 3276f5c..75438b4 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -172,6 +172,7 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
         let ext_metadata = f.metadata()?;
         let cache_key = CacheKey {
             mtime: ext_metadata.mtime(),
+            mtime_nsec: ext_metadata.mtime_nsec(),
             inode: ext_metadata.ino(),
             size: ext_metadata.size(),
         };
-- 
2.43.0


From 11d565ebf84383042ce71230164f8f6385c35b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 13/39] fix: do not use cached keys of objects that are not in
 the repository

---
 src/dir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 75438b4..c0dfec0 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -150,6 +150,9 @@ pub enum HashFsItemError {
     #[error("cache error: {_0}")]
     CacheError(#[from] cache::GetCacheError),
 
+    #[error("error checking if object exists: {_0}")]
+    RawExistsError(#[from] ds::RawExistsError),
+
     #[error("error when encoding object: {_0}")]
     EncodeError(#[from] serde_cbor::error::Error),
 
@@ -178,7 +181,10 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
         };
 
         if let Some(h) = cache.get(cache_key)? {
-            return Ok(h);
+            // The cache is shared between repositories, so this one might not have the object.
+            if ds.raw_exists(&h.as_db_key())? {
+                return Ok(h);
+            }
         }
 
         let reader = std::io::BufReader::new(f);
-- 
2.43.0


From 864076d315d784ab97d2c5484dbfec7a89bcc898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 14/39] fix: resolve full object ids

---
 src/ds/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index d35c0e4..c1f8f1a 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -31,6 +31,9 @@ pub enum CanonicalizeError {
 
     #[error("error when getting reflog: {_0}")]
     GetReflogError(#[from] GetReflogError),
+
+    #[error("error checking if object exists: {_0}")]
+    RawExistsError(#[from] RawExistsError),
 }
 
 #[derive(Debug)]
@@ -256,8 +259,9 @@ pub trait DataStore: Transactional {
             Keyish::Key(s, key) => {
                 err_str = s;
 
-                let k = self.raw_get(&key).unwrap();
-                results.push(k.to_vec());
+                if self.raw_exists(&key)? {
+                    results.push(key);
+                }
             }
             Keyish::Range(s, start, end) => {
                 err_str = s;
-- 
2.43.0


From adb4f3edfa7351c516e27fe92fb7a7e291fde897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 15/39] fix: report a failure to commit the transaction

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1547ca6..de3ffa9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -793,7 +793,9 @@ fn main() -> CMDResult {
         state.ds_state.as_mut().map(|x| x.ds.rollback());
         state.cache.rollback()?;
     } else {
-        state.ds_state.as_mut().map(|x| x.ds.commit());
+        if let Some(x) = state.ds_state.as_mut() {
+            x.ds.commit()?;
+        }
         state.cache.commit()?;
     }
 
-- 
2.43.0


From 4680a9770879d9ebf511c1eace543c8acbde4f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 16/39] fix: exit with a failure status when a command fails

---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index de3ffa9..f682dda 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -792,6 +792,11 @@ fn main() -> CMDResult {
 
         state.ds_state.as_mut().map(|x| x.ds.rollback());
         state.cache.rollback()?;
+
+        // Close the databases, since exit doesn't run destructors.
+        drop(state);
+
+        std::process::exit(1);
     } else {
         if let Some(x) = state.ds_state.as_mut() {
             x.ds.commit()?;
-- 
2.43.0


From ad634a70f469220e3e8bb10365a5ddd5ad8922ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 17/39] fix: detect corrupt objects when reading them

---
 src/ds/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index c1f8f1a..5c830d1 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -166,6 +166,9 @@ pub enum GetObjError {
 
     #[error("error decoding object: {_0}")]
     DecodeError(#[from] serde_cbor::error::Error),
+
+    #[error("object {_0} is corrupt")]
+    Corrupt(key::Key),
 }
 
 #[derive(Debug, Error)]
@@ -297,6 +300,10 @@ pub trait DataStore: Transactional {
     fn get_obj(&self, key: key::Key) -> Result<Object, GetObjError> {
         let data = self.get(key)?;
 
+        if self.hash(&data) != key {
+            return Err(GetObjError::Corrupt(key));
+        }
+
         Ok(serde_cbor::from_slice(&data)?)
     }
 
-- 
2.43.0


From 22f3fd728c67d32c06b0d22967bef1c15335cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 18/39] fix: do not reset HEAD when running init on an existing
 database

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f682dda..4bf64ed 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -464,7 +464,10 @@ fn init(state: &mut State, _args: InitArgs) -> CMDResult {
     std::fs::create_dir_all(&state.common.db_path)?;
     let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
 
-    ds.put_head("master")?;
+    // Don't touch the HEAD of a database that's already initialised.
+    if ds.get_head()?.is_none() {
+        ds.put_head("master")?;
+    }
 
     Ok(())
 }
-- 
2.43.0


From 818c82495ae778261c35bb13fee9557c1ccd1550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 19/39] fix: reject ids that are longer than a full id

---
 src/keyish.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keyish.rs b/src/keyish.rs
index fbe8f95..c4a1a3d 100644
--- a/src/keyish.rs
+++ b/src/keyish.rs
@@ -88,6 +88,12 @@ impl std::str::FromStr for Keyish {
 
             if input.len() == max_len {
                 let mut v = input.into_vec();
+
+                // Anything past the bits of the hash would have been ignored.
+                if !crate::base32::to_base32(&v).eq_ignore_ascii_case(bytes) {
+                    return Err(KeyishParseError::Invalid(s.to_string()));
+                }
+
                 v.insert(0_usize, 1_u8);
                 return Ok(Keyish::Key(s.to_string(), v));
             }
-- 
2.43.0


From 02630c88ab6b5c48271e01507082ff88d974971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 20/39] fix: do not count the end of a file as another line in
 patches

---
 src/diff.rs | 84 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 45 insertions(+), 39 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index e12dfad..cd728ca 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -515,52 +515,58 @@ pub fn create_diff_patch_result(
 }
 
 fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf) -> String {
-    let lines = difference::Changeset::new(&before_str, &after_str, "\n");
+    let is_terminated = |s: &str| s.is_empty() || s.ends_with('\n');
+
+    // The end of the last line isn't the start of another one. If there's only a line ending at the
+    // end of one of them, then keep the empty string after it, so it's shown as a difference.
+    let (before_lines, after_lines): (Vec<&str>, Vec<&str>) =
+        if is_terminated(&before_str) && is_terminated(&after_str) {
+            (
+                before_str.split_terminator('\n').collect(),
+                after_str.split_terminator('\n').collect(),
+            )
+        } else {
+            (
+                before_str.split('\n').collect(),
+                after_str.split('\n').collect(),
+            )
+        };
 
     let mut before_lineno = 1;
     let mut after_lineno = 1;
 
-    let lines_ln: Vec<_> = lines
-        .diffs
+    let lines_ln: Vec<_> = diff::slice(&before_lines, &after_lines)
         .into_iter()
-        .map(|x| {
-            let mut result = Vec::new();
-            match x {
-                difference::Difference::Add(s) => {
-                    for line in s.split('\n') {
-                        result.push((
-                            before_lineno,
-                            after_lineno,
-                            difference::Difference::Add(line.to_string()),
-                        ));
-                        after_lineno += 1;
-                    }
-                }
-                difference::Difference::Same(s) => {
-                    for line in s.split('\n') {
-                        result.push((
-                            before_lineno,
-                            after_lineno,
-                            difference::Difference::Same(line.to_string()),
-                        ));
-                        before_lineno += 1;
-                        after_lineno += 1;
-                    }
-                }
-                difference::Difference::Rem(s) => {
-                    for line in s.split('\n') {
-                        result.push((
-                            before_lineno,
-                            after_lineno,
-                            difference::Difference::Rem(line.to_string()),
-                        ));
-                        before_lineno += 1;
-                    }
-                }
+        .map(|x| match x {
+            diff::Result::Right(line) => {
+                let result = (
+                    before_lineno,
+                    after_lineno,
+                    difference::Difference::Add(line.to_string()),
+                );
+                after_lineno += 1;
+                result
+            }
+            diff::Result::Both(line, _) => {
+                let result = (
+                    before_lineno,
+                    after_lineno,
+                    difference::Difference::Same(line.to_string()),
+                );
+                before_lineno += 1;
+                after_lineno += 1;
+                result
+            }
+            diff::Result::Left(line) => {
+                let result = (
+                    before_lineno,
+                    after_lineno,
+                    difference::Difference::Rem(line.to_string()),
+                );
+                before_lineno += 1;
+                result
             }
-            result
         })
-        .flatten()
         .collect();
 
     let mut windows_vec = Vec::new();
-- 
2.43.0


From a13a67a512471e05b60d905aa0b1a95ae74969f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 21/39] fix: give the correct line ranges in patches

---
 src/diff.rs | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index cd728ca..86f02af 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -413,11 +413,8 @@ pub fn create_diff_patch_result(
                     }
 
                     hunks.push(patch::Hunk {
-                        old_range: patch::Range { start: 0, count: 0 },
-                        new_range: patch::Range {
-                            start: 0,
-                            count: lines.len() as u64,
-                        },
+                        old_range: patch_range(1, 0),
+                        new_range: patch_range(1, lines.len()),
                         lines,
                     });
                 }
@@ -466,11 +463,8 @@ pub fn create_diff_patch_result(
                     }
 
                     hunks.push(patch::Hunk {
-                        new_range: patch::Range { start: 0, count: 0 },
-                        old_range: patch::Range {
-                            start: 0,
-                            count: lines.len() as u64,
-                        },
+                        new_range: patch_range(1, 0),
+                        old_range: patch_range(1, lines.len()),
                         lines,
                     });
                 }
@@ -514,6 +508,17 @@ pub fn create_diff_patch_result(
     Ok(result)
 }
 
+/// Makes the range of `count` lines starting at line `start` (where the first line is 1).
+fn patch_range(start: u64, count: usize) -> patch::Range {
+    // An empty range is given as the line it's after.
+    let start = if count == 0 { start - 1 } else { start };
+
+    patch::Range {
+        start,
+        count: count as u64,
+    }
+}
+
 fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf) -> String {
     let is_terminated = |s: &str| s.is_empty() || s.ends_with('\n');
 
@@ -596,17 +601,19 @@ fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf)
         assert!(!collected.is_empty());
 
         let (start_before, start_after, _) = collected.first().unwrap();
-        let (end_before, end_after, _) = collected.last().unwrap();
 
-        let before_range = patch::Range {
-            start: *start_before,
-            count: *end_before - *start_before,
-        };
+        let before_count = collected
+            .iter()
+            .filter(|x| !matches!(x.2, difference::Difference::Add(_)))
+            .count();
 
-        let after_range = patch::Range {
-            start: *start_after,
-            count: *end_after - *start_after,
-        };
+        let after_count = collected
+            .iter()
+            .filter(|x| !matches!(x.2, difference::Difference::Rem(_)))
+            .count();
+
+        let before_range = patch_range(*start_before, before_count);
+        let after_range = patch_range(*start_after, after_count);
 
         let mut lines = Vec::new();
 
-- 
2.43.0


From ec2f4aa364369553c34a41972b9ba1202b264f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 22/39] fix: keep carriage returns in patches of added and
 removed files

---
 src/diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 86f02af..d7d9983 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -408,7 +408,7 @@ pub fn create_diff_patch_result(
                 Ok(s) => {
                     let mut lines = Vec::new();
 
-                    for line in s.lines() {
+                    for line in s.split_terminator('\n') {
                         lines.push(patch::Line::Add(line));
                     }
 
@@ -458,7 +458,7 @@ pub fn create_diff_patch_result(
                 Ok(s) => {
                     let mut lines = Vec::new();
 
-                    for line in s.lines() {
+                    for line in s.split_terminator('\n') {
                         lines.push(patch::Line::Remove(line));
                     }
 
-- 
2.43.0


From a0f3b020c8c7a463976922807995a1eeccc5102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:51 +0000
Subject: [PATCH 23/39] fix: count lines of files that were or became empty
 correctly

---
 src/diff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index d7d9983..53c4c3c 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -316,7 +316,10 @@ pub fn line_stat(ds: &impl DataStore, r: DiffResult) -> LineStatResult {
         let before_str = String::from_utf8_lossy(&before);
         let after_str = String::from_utf8_lossy(&after);
 
-        let lines = diff::lines(&before_str, &after_str);
+        let before_lines: Vec<&str> = before_str.split('\n').collect();
+        let after_lines: Vec<&str> = after_str.split('\n').collect();
+
+        let lines = diff::slice(&before_lines, &after_lines);
 
         let mut removed: usize = 0;
         let mut added: usize = 0;
-- 
2.43.0


From b1771361722aafff25da2922e825cee77f2bef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 24/39] hook: let verification builds choose the directory
 checkout is restricted to

Only with --cfg snapcd_verif; otherwise the behaviour is unchanged.
---
 src/dir.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index c0dfec0..6d1b1eb 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -302,6 +302,17 @@ pub enum CheckoutFsItemError {
     UnimplementedFileTypeFound,
 }
 
+/// The only directory that checkout is allowed to change the contents of.
+fn checkout_root() -> PathBuf {
+    // Lets a verification build use a scratch directory instead.
+    #[cfg(snapcd_verif)]
+    if let Some(root) = std::env::var_os("SNAPCD_VERIF_CHECKOUT_ROOT") {
+        return PathBuf::from(root);
+    }
+
+    PathBuf::from("/home/jess/src/snapcd/repo")
+}
+
 pub fn checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -309,7 +320,7 @@ pub fn checkout_fs_item<DS: DataStore>(
     filter: &dyn Fn(&DirEntry) -> bool,
 ) -> Result<(), CheckoutFsItemError> {
     // This has to be checked before anything is created, truncated, or removed.
-    assert!(path.starts_with("/home/jess/src/snapcd/repo"));
+    assert!(path.starts_with(checkout_root()));
 
     let obj = ds.get_obj(key.into())?;
 
-- 
2.43.0


From a6640eb7a028ce1881c6ce12135e2ba17e172eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:29 +0000
Subject: [PATCH 25/39] fix: do not use an outer database when looking for the
 nearest one fails

---
 src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4bf64ed..4b09a33 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,6 +18,7 @@ use structopt::StructOpt;
 type CMDResult = Result<(), anyhow::Error>;
 
 use std::convert::TryInto;
+use std::io::ErrorKind;
 use structopt::clap::AppSettings;
 
 #[derive(StructOpt, Debug)]
@@ -442,8 +443,16 @@ fn find_db_folder(name: &Path) -> Result<Option<PathBuf>, anyhow::Error> {
 
         check.push(&name);
 
-        if check.exists() {
-            return Ok(Some(check));
+        match std::fs::metadata(&check) {
+            Ok(_) => return Ok(Some(check)),
+            // There's nothing here (that we'd be able to use).
+            Err(e)
+                if matches!(
+                    e.kind(),
+                    ErrorKind::NotFound | ErrorKind::NotADirectory | ErrorKind::PermissionDenied
+                ) => {}
+            // We don't know, so don't go on to use another database further up.
+            Err(e) => return Err(e.into()),
         }
 
         d = match d.parent() {
-- 
2.43.0


From 46db8ef4a00415eb446164e49eb9ee7dc78834a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:29 +0000
Subject: [PATCH 26/39] fix: fail when the end of the output cannot be written

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4b09a33..211affa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,7 +18,7 @@ use structopt::StructOpt;
 type CMDResult = Result<(), anyhow::Error>;
 
 use std::convert::TryInto;
-use std::io::ErrorKind;
+use std::io::{ErrorKind, Write};
 use structopt::clap::AppSettings;
 
 #[derive(StructOpt, Debug)]
@@ -797,6 +797,9 @@ fn main() -> CMDResult {
         Command::Ref(args) => ref_cmd(&mut state, args),
     };
 
+    // What's left in the buffer is written when exiting, but errors are ignored then.
+    let result = result.and_then(|()| Ok(std::io::stdout().flush()?));
+
     if let Err(e) = result {
         log::debug!("error debug: {:?}", e);
 
-- 
2.43.0


From bcfd2bdfdb3d0306bd3a94bf90254ed0d0194611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 27/39] fix: keep a power failure from making the cache
 unreadable

---
 src/cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index d22bba7..f86a282 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -93,8 +93,9 @@ impl SqliteCache {
 
         conn.pragma_update(None, &"journal_mode", &"WAL")?;
 
-        // It's a cache. Speed is more important than safety.
-        conn.pragma_update(None, &"synchronous", &"OFF")?;
+        // It's a cache. Speed is more important than safety, but with OFF it could be corrupt after
+        // a power failure, and nothing works then. (NORMAL only syncs when checkpointing.)
+        conn.pragma_update(None, &"synchronous", &"NORMAL")?;
 
         conn.execute_batch(
             "
-- 
2.43.0


From 421978b18d19b80ebf4480adc1f880c7c50cb6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 28/39] fix: make the folder created by init survive a power
 failure

---
 src/main.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 211affa..d7fc104 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -470,7 +470,17 @@ fn get_head_key(ds: &impl DataStore) -> Result<key::TypedKey<commit::Commit>, an
 }
 
 fn init(state: &mut State, _args: InitArgs) -> CMDResult {
-    std::fs::create_dir_all(&state.common.db_path)?;
+    let db_path = &state.common.db_path;
+
+    // The folder itself, and the ones that have to be created for it.
+    let new_dirs: Vec<_> = db_path
+        .ancestors()
+        .enumerate()
+        .take_while(|(i, p)| *i == 0 || !p.exists() && !p.as_os_str().is_empty())
+        .map(|(_, p)| p)
+        .collect();
+
+    std::fs::create_dir_all(db_path)?;
     let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
 
     // Don't touch the HEAD of a database that's already initialised.
@@ -478,6 +488,17 @@ fn init(state: &mut State, _args: InitArgs) -> CMDResult {
         ds.put_head("master")?;
     }
 
+    // SQLite makes sure that the database is in its folder after a power failure, but not that the
+    // folder is there.
+    for dir in new_dirs {
+        let parent = match dir.parent() {
+            Some(p) if !p.as_os_str().is_empty() => p,
+            _ => Path::new("."),
+        };
+
+        std::fs::File::open(parent)?.sync_all()?;
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 60c86fe26bbcacaccdaab7d127085764b4c6e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 29/39] fix: match exclude patterns one by one

A GlobSet with several literal-prefix (or several literal-suffix) patterns can
miss a match of one pattern because of another one, so that excluded paths got
into a snapshot depending on which other patterns were given.
---
 src/filter.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 01b3ca2..18e90f7 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -5,13 +5,16 @@ pub fn make_filter_fn<T: AsRef<str>>(
     excludes: &[T],
     db_path: PathBuf,
 ) -> Box<dyn Fn(&DirEntry) -> bool> {
-    let mut excl_globs = globset::GlobSetBuilder::new();
-
-    for exclude in excludes {
-        excl_globs.add(globset::Glob::new(exclude.as_ref()).unwrap());
-    }
-
-    let excl_globset = excl_globs.build().unwrap();
+    // Matched one by one, because a GlobSet can miss a match of one glob due to another one (if the
+    // path contains the literal prefix or suffix of the other one, but doesn't start or end with it).
+    let excl_globs: Vec<globset::GlobMatcher> = excludes
+        .iter()
+        .map(|exclude| {
+            globset::Glob::new(exclude.as_ref())
+                .unwrap()
+                .compile_matcher()
+        })
+        .collect();
 
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
@@ -29,6 +32,6 @@ pub fn make_filter_fn<T: AsRef<str>>(
             &path
         };
 
-        !excl_globset.is_match(normalised_path)
+        !excl_globs.iter().any(|glob| glob.is_match(normalised_path))
     })
 }
-- 
2.43.0


From 0e2e695c5e8cfb0c049a10aef89a392b725d09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:44 +0000
Subject: [PATCH 30/39] fix: check where a checkout really goes, not how its
 path is written

---
 src/dir.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 6d1b1eb..636b751 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -319,9 +319,22 @@ pub fn checkout_fs_item<DS: DataStore>(
     path: &Path,
     filter: &dyn Fn(&DirEntry) -> bool,
 ) -> Result<(), CheckoutFsItemError> {
-    // This has to be checked before anything is created, truncated, or removed.
-    assert!(path.starts_with(checkout_root()));
+    // This has to be checked before anything is created, truncated, or removed. The path can
+    // contain `..` and symlinks, so where it really is has to be compared.
+    let root = checkout_root().canonicalize();
+    assert!(root.map_or(false, |root| path
+        .canonicalize()
+        .map_or(false, |path| path.starts_with(root))));
+
+    internal_checkout_fs_item(ds, key, path, filter)
+}
 
+fn internal_checkout_fs_item<DS: DataStore>(
+    ds: &DS,
+    key: TypedKey<FSItem>,
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<(), CheckoutFsItemError> {
     let obj = ds.get_obj(key.into())?;
 
     let fsobj: FSItem = obj.try_into()?;
@@ -358,7 +371,7 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                checkout_fs_item(ds, child, &child_path(path, name)?, filter)?;
+                internal_checkout_fs_item(ds, child, &child_path(path, name)?, filter)?;
             }
         }
         FSItemType::File => {
-- 
2.43.0


From e1b96ddf7e4d5d292ba3e6890296adde17287eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:52 +0000
Subject: [PATCH 31/39] fix: keep excluded files and the repository folder on
 checkout

---
 src/dir.rs | 53 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 636b751..bcae193 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -329,6 +329,39 @@ pub fn checkout_fs_item<DS: DataStore>(
     internal_checkout_fs_item(ds, key, path, filter)
 }
 
+/// Removes a file or directory that isn't in the tree being checked out.
+///
+/// Excluded items inside of a directory are kept, along with the directories they are in.
+fn remove_extra_item(
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<bool, CheckoutFsItemError> {
+    let ft = std::fs::symlink_metadata(path)?.file_type();
+
+    if ft.is_file() || ft.is_symlink() {
+        std::fs::remove_file(path)?;
+        return Ok(true);
+    }
+
+    if !ft.is_dir() {
+        return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
+    }
+
+    let mut all_removed = true;
+
+    for item in std::fs::read_dir(path)? {
+        let item = item?;
+
+        all_removed &= filter(&item) && remove_extra_item(&item.path(), filter)?;
+    }
+
+    if all_removed {
+        std::fs::remove_dir(path)?;
+    }
+
+    Ok(all_removed)
+}
+
 fn internal_checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -344,6 +377,7 @@ fn internal_checkout_fs_item<DS: DataStore>(
             let db_items: HashSet<PathBuf> = fsobj.children_names.iter().cloned().collect();
 
             let mut fs_items = HashSet::new();
+            let mut excluded_items = HashSet::new();
 
             std::fs::create_dir_all(&path)?;
 
@@ -352,26 +386,23 @@ fn internal_checkout_fs_item<DS: DataStore>(
 
                 if filter(&ok_item) {
                     fs_items.insert(ok_item.file_name().into());
+                } else {
+                    excluded_items.insert(PathBuf::from(ok_item.file_name()));
                 }
             }
 
             let extra: Vec<_> = fs_items.difference(&db_items).collect();
 
             for item in extra.iter() {
-                let p = path.join(item);
-                let ft = std::fs::metadata(&p)?.file_type();
-
-                if ft.is_dir() {
-                    std::fs::remove_dir_all(p)?;
-                } else if ft.is_file() {
-                    std::fs::remove_file(p)?;
-                } else if ft.is_symlink() {
-                    return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
-                }
+                remove_extra_item(&path.join(item), filter)?;
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                internal_checkout_fs_item(ds, child, &child_path(path, name)?, filter)?;
+                let child_path = child_path(path, name)?;
+
+                if !excluded_items.contains(name) {
+                    internal_checkout_fs_item(ds, child, &child_path, filter)?;
+                }
             }
         }
         FSItemType::File => {
-- 
2.43.0


From bdc6cfdd3125115a0641f8f31ad729da55ba30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 32/39] fix: do not check out through symlinks

---
 src/dir.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index bcae193..3505c25 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -401,6 +401,11 @@ fn internal_checkout_fs_item<DS: DataStore>(
                 let child_path = child_path(path, name)?;
 
                 if !excluded_items.contains(name) {
+                    // It could lead to anywhere outside of the directory being checked out to.
+                    if std::fs::read_link(&child_path).is_ok() {
+                        return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
+                    }
+
                     internal_checkout_fs_item(ds, child, &child_path, filter)?;
                 }
             }
-- 
2.43.0


From 772f5cbe00a63d4232a386e9d64679539deea9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:05 +0000
Subject: [PATCH 33/39] fix: do not bring removed directories back on checkout

---
 src/dir.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 3505c25..e44b614 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -379,7 +379,11 @@ fn internal_checkout_fs_item<DS: DataStore>(
             let mut fs_items = HashSet::new();
             let mut excluded_items = HashSet::new();
 
-            std::fs::create_dir_all(&path)?;
+            // Not create_dir_all, which would bring back directories that were removed if the path
+            // goes through one of them and up again.
+            if !path.is_dir() {
+                std::fs::create_dir(path)?;
+            }
 
             for item in std::fs::read_dir(&path)? {
                 let ok_item = item?;
-- 
2.43.0


From 2131892a160ecccb22ce3f8f93f3f72f45f0bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:55 +0000
Subject: [PATCH 34/39] fix: let broken symlinks be excluded

---
 src/filter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter.rs b/src/filter.rs
index 18e90f7..d977ec0 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -19,7 +19,8 @@ pub fn make_filter_fn<T: AsRef<str>>(
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
 
-        let canon_path = std::fs::canonicalize(&path).unwrap();
+        // A broken symlink isn't in the database, and might be excluded.
+        let canon_path = std::fs::canonicalize(&path).unwrap_or_else(|_| path.clone());
         let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
 
         if canon_path.starts_with(canon_db_path) {
-- 
2.43.0


From d6ea406357f2665a1395f3b8bd23ad00f829b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:44 +0000
Subject: [PATCH 35/39] fix: don't mix up files of different file systems in
 the cache

---
 src/cache.rs | 7 +++++--
 src/dir.rs   | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index f86a282..a9591b9 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -7,6 +7,7 @@ use crate::{ds, key};
 
 #[derive(Copy, Clone, Debug)]
 pub struct CacheKey {
+    pub device: u64,
     pub inode: u64,
     pub mtime: i64,
     pub mtime_nsec: i64,
@@ -45,7 +46,8 @@ pub trait Cache: ds::Transactional {
     fn raw_put(&self, cachekey: &[u8], value: &[u8]) -> Result<(), RawPutCacheError>;
 
     fn get(&self, cachekey: CacheKey) -> Result<Option<key::Key>, GetCacheError> {
-        let mut data = Vec::with_capacity(8 * 4);
+        let mut data = Vec::with_capacity(8 * 5);
+        data.extend(cachekey.device.to_le_bytes().iter());
         data.extend(cachekey.inode.to_le_bytes().iter());
         data.extend(cachekey.mtime.to_le_bytes().iter());
         data.extend(cachekey.mtime_nsec.to_le_bytes().iter());
@@ -63,8 +65,9 @@ pub trait Cache: ds::Transactional {
     }
 
     fn put(&self, cachekey: CacheKey, value: key::Key) -> Result<(), PutCacheError> {
-        let mut data = Vec::with_capacity(8 * 4);
+        let mut data = Vec::with_capacity(8 * 5);
 
+        data.extend(cachekey.device.to_le_bytes().iter());
         data.extend(cachekey.inode.to_le_bytes().iter());
         data.extend(cachekey.mtime.to_le_bytes().iter());
         data.extend(cachekey.mtime_nsec.to_le_bytes().iter());
diff --git a/src/dir.rs b/src/dir.rs
index e44b614..29a95e0 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -174,6 +174,8 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let ext_metadata = f.metadata()?;
         let cache_key = CacheKey {
+            // Inodes of different file systems can be the same.
+            device: ext_metadata.dev(),
             mtime: ext_metadata.mtime(),
             mtime_nsec: ext_metadata.mtime_nsec(),
             inode: ext_metadata.ino(),
-- 
2.43.0


From 7019c4ca31a3db5444f2d63711ea99296434ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:51 +0000
Subject: [PATCH 36/39] fix: store the size of what was read, even if a file
 changes meanwhile

---
 src/dir.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 29a95e0..bf476dc 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -10,6 +10,7 @@ use crate::{
 use std::collections::{HashMap, HashSet};
 use std::convert::TryInto;
 use std::fs::DirEntry;
+use std::io::{Seek, SeekFrom};
 use std::path::{Path, PathBuf};
 use thiserror::Error;
 
@@ -117,15 +118,18 @@ pub fn put_fs_item<DS: DataStore>(
     if meta.is_file() {
         let f = std::fs::File::open(path)?;
 
-        let reader = std::io::BufReader::new(f);
+        let reader = std::io::BufReader::new(&f);
 
         let hash = file::put_data(ds, reader)?;
 
+        // It might have changed since its metadata was read, so this is how much was stored.
+        let size = (&f).seek(SeekFrom::Current(0))?;
+
         let obj = FSItem {
             children: vec![hash.into()],
             children_names: vec![],
             itemtype: FSItemType::File,
-            size: meta.len(),
+            size,
         };
 
         let object = obj.try_into()?;
@@ -189,15 +193,18 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
             }
         }
 
-        let reader = std::io::BufReader::new(f);
+        let reader = std::io::BufReader::new(&f);
 
         let hash = file::put_data(ds, reader)?;
 
+        // It might have changed since its metadata was read, so this is how much was stored.
+        let size = (&f).seek(SeekFrom::Current(0))?;
+
         let obj = FSItem {
             children: vec![hash.into()],
             children_names: vec![],
             itemtype: FSItemType::File,
-            size: meta.len(),
+            size,
         };
 
         let object = obj.try_into()?;
-- 
2.43.0


From 4386ea885cd7bf727deffa0c0e310a862b2215d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:57 +0000
Subject: [PATCH 37/39] fix: don't cache the key of a file that changed while
 it was read

---
 src/dir.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index bf476dc..25d3f20 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -211,6 +211,14 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let obj_hash = ds.put_obj(&object)?;
 
+        // If it changed while it was being read, that isn't what it contained at that time.
+        let new_metadata = f.metadata()?;
+        if new_metadata.modified()? != ext_metadata.modified()?
+            || new_metadata.len() != ext_metadata.len()
+        {
+            return Ok(obj_hash);
+        }
+
         match cache.put(cache_key, obj_hash) {
             Ok(()) => {}
             Err(e) => log::warn!(
-- 
2.43.0


From 89d17c76fceaba64a52d815827cefacd76b8d8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:07 +0000
Subject: [PATCH 38/39] fix: count changed lines by their bytes, not by their
 lossy text

Lines that are not UTF-8 were compared after replacing their invalid bytes,
so a changed latin-1 line was counted as unchanged.
---
 src/diff.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 53c4c3c..0a6baa4 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -313,11 +313,8 @@ pub fn line_stat(ds: &impl DataStore, r: DiffResult) -> LineStatResult {
         let mut after = Vec::new();
         file::read_data(ds, modified.new_key.into(), &mut after).unwrap();
 
-        let before_str = String::from_utf8_lossy(&before);
-        let after_str = String::from_utf8_lossy(&after);
-
-        let before_lines: Vec<&str> = before_str.split('\n').collect();
-        let after_lines: Vec<&str> = after_str.split('\n').collect();
+        let before_lines: Vec<&[u8]> = before.split(|x| *x == b'\n').collect();
+        let after_lines: Vec<&[u8]> = after.split(|x| *x == b'\n').collect();
 
         let lines = diff::slice(&before_lines, &after_lines);
 
-- 
2.43.0


From 1fa1689650a7ce8684d5782eced4ce35c563fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:05 +0000
Subject: [PATCH 39/39] fix: checkout doesn't write to other names of a file

A file of the working tree can have other hard links, in the working tree
itself, in an excluded path, in the repository folder or outside of all
that. Overwriting it in place changed those too, so checkout reported
success and left other content than what was committed, or changed files
it must not touch. Such a file is replaced now.
---
 src/dir.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index 25d3f20..58591d2 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -432,6 +432,14 @@ fn internal_checkout_fs_item<DS: DataStore>(
             }
         }
         FSItemType::File => {
+            use std::os::unix::fs::MetadataExt;
+
+            // What's written to a file can be seen under all of its names, and the other ones don't
+            // have to be for the same content, or even inside of the directory.
+            if std::fs::symlink_metadata(path).map_or(false, |x| x.is_file() && x.nlink() > 1) {
+                std::fs::remove_file(path)?;
+            }
+
             let mut f = std::fs::File::create(path)?;
 
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
-- 
2.43.0

