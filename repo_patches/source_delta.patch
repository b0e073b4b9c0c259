From 69ff2dafc0caa16f18aafcee41d1ef2d9262ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 01/31] fix: sled storage flushes acknowledged inserts and
 reports I/O errors

---
 oca/src/data_storage.rs               | 30 +++++++++++++++++----------
 semantics/oca-dag/src/data_storage.rs | 11 +++++-----
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 7bf0970..6615018 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -106,8 +106,10 @@ impl DataStorage for SledDataStorage {
 
     fn get(&self, namespace: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
         if let Some(ref db) = self.db {
-            let tree = db.open_tree(namespace.as_str().as_bytes()).unwrap();
-            match tree.get(key.as_bytes()).unwrap() {
+            let tree = db
+                .open_tree(namespace.as_str().as_bytes())
+                .map_err(|e| e.to_string())?;
+            match tree.get(key.as_bytes()).map_err(|e| e.to_string())? {
                 Some(value) => Ok(Some(value.to_vec())),
                 None => Ok(None),
             }
@@ -119,10 +121,13 @@ impl DataStorage for SledDataStorage {
     fn get_all(&self, namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
         if let Some(ref db) = self.db {
             let mut all = HashMap::new();
-            let tree = db.open_tree(namespace.as_str().as_bytes()).unwrap();
-            let mut iter = tree.iter();
-            while let Some(Ok((key, value))) = iter.next() {
-                all.insert(String::from_utf8(key.to_vec()).unwrap(), value.to_vec());
+            let tree = db
+                .open_tree(namespace.as_str().as_bytes())
+                .map_err(|e| e.to_string())?;
+            for entry in tree.iter() {
+                let (key, value) = entry.map_err(|e| e.to_string())?;
+                let key = String::from_utf8(key.to_vec()).map_err(|e| e.to_string())?;
+                all.insert(key, value.to_vec());
             }
 
             Ok(all)
@@ -133,11 +138,14 @@ impl DataStorage for SledDataStorage {
 
     fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
         if let Some(ref db) = self.db {
-            let tree = db.open_tree(namespace.as_str().as_bytes()).unwrap();
-            match tree.insert(key.as_bytes(), value) {
-                Ok(_) => Ok(()),
-                Err(e) => Err(e.to_string()),
-            }
+            let tree = db
+                .open_tree(namespace.as_str().as_bytes())
+                .map_err(|e| e.to_string())?;
+            tree.insert(key.as_bytes(), value)
+                .map_err(|e| e.to_string())?;
+            // The record has to be durable before success is reported
+            tree.flush().map_err(|e| e.to_string())?;
+            Ok(())
         } else {
             Err("Data Storage must be opened first".to_string())
         }
diff --git a/semantics/oca-dag/src/data_storage.rs b/semantics/oca-dag/src/data_storage.rs
index cb065f7..43265b3 100644
--- a/semantics/oca-dag/src/data_storage.rs
+++ b/semantics/oca-dag/src/data_storage.rs
@@ -24,7 +24,7 @@ impl DataStorage for SledDataStorage {
 
     fn get(&self, key: &str) -> Result<Option<Vec<u8>>, String> {
         if let Some(ref db) = self.db {
-            match db.get(key.as_bytes()).unwrap() {
+            match db.get(key.as_bytes()).map_err(|e| e.to_string())? {
                 Some(value) => Ok(Some(value.to_vec())),
                 None => Ok(None),
             }
@@ -35,10 +35,11 @@ impl DataStorage for SledDataStorage {
 
     fn insert(&self, key: &str, value: &[u8]) -> Result<(), String> {
         if let Some(ref db) = self.db {
-            match db.insert(key.as_bytes(), value) {
-                Ok(_) => Ok(()),
-                Err(e) => Err(e.to_string()),
-            }
+            db.insert(key.as_bytes(), value)
+                .map_err(|e| e.to_string())?;
+            // The record has to be durable before success is reported
+            db.flush().map_err(|e| e.to_string())?;
+            Ok(())
         } else {
             Err("Data Storage must be opened first".to_string())
         }
-- 
2.43.0


From 0bdbdd0cdd8b3f0102d65c015e38898ab4873f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 02/31] fix: file system storage writes records atomically,
 keeps any key in its namespace, reports read errors and lists records

---
 oca/src/data_storage.rs | 120 ++++++++++++++++++++++++++++++++++------
 1 file changed, 104 insertions(+), 16 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 6615018..eb54ac4 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -1,5 +1,10 @@
 use dyn_clonable::*;
-use std::{collections::HashMap, path::PathBuf};
+use std::{
+    collections::HashMap,
+    fs::{File, OpenOptions},
+    io::Write,
+    path::{Path, PathBuf},
+};
 
 pub enum Namespace {
     OCA,
@@ -263,33 +268,116 @@ impl DataStorage for FileSystemStorage {
         if let Some(ref dir) = self.dir {
             let mut path = dir.clone();
             path.push(namespace.as_str());
-            if path.try_exists().unwrap() {
-                path.push(key);
-                Ok(std::fs::read(path.clone()).ok())
-            } else {
-                Ok(None)
+            path.push(Self::file_name(key));
+            match std::fs::read(path) {
+                Ok(value) => Ok(Some(value)),
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+                Err(e) => Err(e.to_string()),
             }
         } else {
             Err("File path is required".to_string())
         }
     }
 
-    fn get_all(&self, _namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
-        Err("Not implemented".to_string())
+    fn get_all(&self, namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
+        if let Some(ref dir) = self.dir {
+            let mut all = HashMap::new();
+            let entries = match std::fs::read_dir(dir.join(namespace.as_str())) {
+                Ok(entries) => entries,
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(all),
+                Err(e) => return Err(e.to_string()),
+            };
+            for entry in entries {
+                let path = entry.map_err(|e| e.to_string())?.path();
+                let key = path
+                    .file_name()
+                    .and_then(|name| name.to_str())
+                    .and_then(Self::key);
+                if let Some(key) = key {
+                    all.insert(key, std::fs::read(path).map_err(|e| e.to_string())?);
+                }
+            }
+            Ok(all)
+        } else {
+            Err("File path is required".to_string())
+        }
     }
 
     fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
         if let Some(ref dir) = self.dir {
-            let mut path = dir.clone();
-            path.push(namespace.as_str());
-            if !path.try_exists().unwrap() {
-                std::fs::create_dir_all(path.clone()).unwrap();
-            }
-
-            path.push(key);
-            std::fs::write(path.clone(), value).map_err(|e| e.to_string())
+            let namespace_dir = dir.join(namespace.as_str());
+            Self::write(dir, &namespace_dir, &Self::file_name(key), value)
+                .map_err(|e| e.to_string())
         } else {
             Err("File path is required".to_string())
         }
     }
 }
+
+impl FileSystemStorage {
+    const TEMPORARY_PREFIX: &'static str = "%tmp";
+
+    /// Name of the file a key is stored in. Characters a file name can't hold
+    /// are percent-encoded, so every key stays inside of its namespace.
+    fn file_name(key: &str) -> String {
+        match key {
+            "" => "%".to_string(),
+            "." | ".." => key.replace('.', "%2E"),
+            _ => key
+                .replace('%', "%25")
+                .replace('/', "%2F")
+                .replace('\0', "%00"),
+        }
+    }
+
+    /// Reverse of `file_name`, `None` for files which don't hold a record.
+    fn key(file_name: &str) -> Option<String> {
+        if file_name.starts_with(Self::TEMPORARY_PREFIX) {
+            return None;
+        }
+        match file_name {
+            "%" => Some(String::new()),
+            _ => Some(
+                file_name
+                    .replace("%2E", ".")
+                    .replace("%00", "\0")
+                    .replace("%2F", "/")
+                    .replace("%25", "%"),
+            ),
+        }
+    }
+
+    /// Replaces the record at once: it is written to a temporary file, which
+    /// takes over the name only when its content is on the disk.
+    fn write(
+        dir: &Path,
+        namespace_dir: &Path,
+        file_name: &str,
+        value: &[u8],
+    ) -> std::io::Result<()> {
+        if !namespace_dir.try_exists()? {
+            std::fs::create_dir_all(namespace_dir)?;
+        }
+        File::open(dir)?.sync_all()?;
+
+        let mut index = 0;
+        let (mut file, temporary_path) = loop {
+            let path = namespace_dir.join(format!("{}{}", Self::TEMPORARY_PREFIX, index));
+            match OpenOptions::new().write(true).create_new(true).open(&path) {
+                Ok(file) => break (file, path),
+                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => index += 1,
+                Err(e) => return Err(e),
+            }
+        };
+        let written = file
+            .write_all(value)
+            .and_then(|_| file.sync_all())
+            .and_then(|_| std::fs::rename(&temporary_path, namespace_dir.join(file_name)));
+        if written.is_err() {
+            let _ = std::fs::remove_file(&temporary_path);
+        }
+        written?;
+
+        File::open(namespace_dir)?.sync_all()
+    }
+}
-- 
2.43.0


From f8aa071d02d265593792399eef60beb9012b4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 03/31] fix: a build reports storage errors and writes the
 discoverable records last

---
 oca/src/facade/build.rs                       | 148 +++++++++---------
 oca/src/facade/explore.rs                     |  85 +++++-----
 .../repositories/capture_base_cache_repo.rs   |  11 +-
 oca/src/repositories/oca_bundle_cache_repo.rs |  11 +-
 oca/src/repositories/oca_bundle_fts_repo.rs   |  25 +--
 5 files changed, 138 insertions(+), 142 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index d7d6d7a..61d72c5 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -26,6 +26,8 @@ pub enum Error {
     ValidationError(Vec<ValidationError>),
     #[error("Deprecated")]
     Deprecated,
+    #[error("Storage error: {0}")]
+    StorageError(String),
 }
 
 #[derive(thiserror::Error, Debug, serde::Serialize)]
@@ -122,20 +124,25 @@ impl Facade {
     }
 
     pub fn build(&mut self, oca_build: &OCABuild) -> Result<OCABundle, Error> {
-        self.build_cache(&oca_build.oca_bundle);
+        self.store_build(oca_build).map_err(Error::StorageError)?;
 
-        self.build_meta(&oca_build.oca_bundle);
+        Ok(oca_build.oca_bundle.clone())
+    }
 
-        oca_build
-            .steps
-            .iter()
-            .for_each(|step| self.build_step(step));
+    /// Stores everything the build consists of. The records which make the
+    /// bundle discoverable are written last, so whatever is found is complete.
+    fn store_build(&mut self, oca_build: &OCABuild) -> Result<(), String> {
+        for step in &oca_build.steps {
+            self.build_step(step)?;
+        }
 
-        let _ = self.add_relations(oca_build.oca_bundle.clone());
+        self.add_relations(oca_build.oca_bundle.clone())?;
 
-        self.build_models(oca_build);
+        self.build_models(oca_build)?;
 
-        Ok(oca_build.oca_bundle.clone())
+        self.build_cache(&oca_build.oca_bundle)?;
+
+        self.build_meta(&oca_build.oca_bundle)
     }
 
     pub fn build_from_ocafile(&mut self, ocafile: String) -> Result<OCABundle, Error> {
@@ -242,17 +249,17 @@ impl Facade {
         Ok(oca_build)
     }
 
-    fn build_cache(&self, oca_bundle: &OCABundle) {
+    fn build_cache(&self, oca_bundle: &OCABundle) -> Result<(), String> {
         let oca_bundle_cache_repo = OCABundleCacheRepo::new(self.connection());
         let oca_bundle_cache_record = OCABundleCacheRecord::new(oca_bundle);
-        oca_bundle_cache_repo.insert(oca_bundle_cache_record);
+        oca_bundle_cache_repo.insert(oca_bundle_cache_record)?;
 
         let capture_base_cache_repo = CaptureBaseCacheRepo::new(self.connection());
         let capture_base_cache_record = CaptureBaseCacheRecord::new(&oca_bundle.capture_base);
-        capture_base_cache_repo.insert(capture_base_cache_record);
+        capture_base_cache_repo.insert(capture_base_cache_record)
     }
 
-    fn build_meta(&self, oca_bundle: &OCABundle) {
+    fn build_meta(&self, oca_bundle: &OCABundle) -> Result<(), String> {
         let meta_overlays = oca_bundle
             .overlays
             .iter()
@@ -279,12 +286,13 @@ impl Facade {
                     meta_overlay.language,
                 );
 
-                oca_bundle_fts_repo.insert(oca_bundle_fts_record);
+                oca_bundle_fts_repo.insert(oca_bundle_fts_record)?;
             }
         }
+        Ok(())
     }
 
-    fn build_step(&mut self, step: &OCABuildStep) {
+    fn build_step(&mut self, step: &OCABuildStep) -> Result<(), String> {
         let mut input: Vec<u8> = vec![];
         match &step.parent_said {
             Some(said) => {
@@ -299,54 +307,45 @@ impl Facade {
         let command_str = serde_json::to_string(&step.command).unwrap();
         input.extend(command_str.as_bytes());
         let result_bundle = step.result.clone();
-        self.db
-            .insert(
-                Namespace::OCA,
-                &format!("oca.{}.operation", result_bundle.said.clone().unwrap()),
-                &input,
-            )
-            .unwrap();
+        self.db.insert(
+            Namespace::OCA,
+            &format!("oca.{}.operation", result_bundle.said.clone().unwrap()),
+            &input,
+        )?;
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
-        self.db_cache
-            .insert(
-                Namespace::OCABundlesJSON,
-                &result_bundle.said.clone().unwrap().to_string(),
-                &result_bundle.encode(&code, &format).unwrap(),
-            )
-            .unwrap();
-        self.db_cache
-            .insert(
+        self.db_cache.insert(
+            Namespace::OCABundlesJSON,
+            &result_bundle.said.clone().unwrap().to_string(),
+            &result_bundle.encode(&code, &format).unwrap(),
+        )?;
+        self.db_cache.insert(
+            Namespace::OCAObjectsJSON,
+            &result_bundle.capture_base.said.clone().unwrap().to_string(),
+            &serde_json::to_string(&result_bundle.capture_base)
+                .unwrap()
+                .into_bytes(),
+        )?;
+        for overlay in &result_bundle.overlays {
+            self.db_cache.insert(
                 Namespace::OCAObjectsJSON,
-                &result_bundle.capture_base.said.clone().unwrap().to_string(),
-                &serde_json::to_string(&result_bundle.capture_base)
-                    .unwrap()
-                    .into_bytes(),
-            )
-            .unwrap();
-        result_bundle.overlays.iter().for_each(|overlay| {
-            self.db_cache
-                .insert(
-                    Namespace::OCAObjectsJSON,
-                    &overlay.said().clone().unwrap().to_string(),
-                    &serde_json::to_string(&overlay).unwrap().into_bytes(),
-                )
-                .unwrap();
-        });
+                &overlay.said().clone().unwrap().to_string(),
+                &serde_json::to_string(&overlay).unwrap().into_bytes(),
+            )?;
+        }
+        Ok(())
     }
 
-    fn build_models(&mut self, oca_build: &OCABuild) {
+    fn build_models(&mut self, oca_build: &OCABuild) -> Result<(), String> {
         let result_models = build_core_db_model(oca_build);
-        result_models.iter().for_each(|model| {
+        for model in &result_models {
             if let Some(command_model) = &model.command {
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", command_model.digest),
-                        &command_model.json.clone().into_bytes(),
-                    )
-                    .unwrap();
+                self.db.insert(
+                    Namespace::CoreModel,
+                    &format!("core_model.{}", command_model.digest),
+                    &command_model.json.clone().into_bytes(),
+                )?;
             }
 
             if let Some(capture_base_model) = &model.capture_base {
@@ -371,13 +370,11 @@ impl Facade {
                 );
                 input.extend(capture_base_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", capture_base_model.capture_base_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.db.insert(
+                    Namespace::CoreModel,
+                    &format!("core_model.{}", capture_base_model.capture_base_said),
+                    &input,
+                )?;
             }
 
             if let Some(overlay_model) = &model.overlay {
@@ -402,13 +399,11 @@ impl Facade {
                 );
                 input.extend(overlay_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", overlay_model.overlay_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.db.insert(
+                    Namespace::CoreModel,
+                    &format!("core_model.{}", overlay_model.overlay_said),
+                    &input,
+                )?;
             }
 
             if let Some(oca_bundle_model) = &model.oca_bundle {
@@ -438,14 +433,13 @@ impl Facade {
                     input.extend(said.to_string().as_bytes());
                 }
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", oca_bundle_model.oca_bundle_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.db.insert(
+                    Namespace::CoreModel,
+                    &format!("core_model.{}", oca_bundle_model.oca_bundle_said),
+                    &input,
+                )?;
             }
-        });
+        }
+        Ok(())
     }
 }
diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 096669c..edcaa3a 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -8,17 +8,26 @@ use super::Facade;
 
 impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
-        let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
+        self.relationship(said).ok().flatten()
+    }
 
-        match relations_u8_res {
-            Ok(Some(relations_u8)) => {
+    fn relationship(&self, said: String) -> Result<Option<Relationship>, String> {
+        match self.db.get(Namespace::OCARelations, &said)? {
+            Some(relations_u8) => {
                 let relationship: Relationship = relations_u8.into();
-                Some(Relationship {
-                    base_object: OCAObject::new(self, said),
+                Ok(Some(Relationship {
+                    base_object: OCAObject::new(self, said)?,
                     relations: relationship.relations,
-                })
+                }))
             }
-            _ => None,
+            None => Ok(None),
+        }
+    }
+
+    fn relationship_or_new(&self, said: String) -> Result<Relationship, String> {
+        match self.relationship(said.clone())? {
+            Some(relationship) => Ok(relationship),
+            None => Ok(Relationship::new(OCAObject::new(self, said)?)),
         }
     }
 
@@ -43,8 +52,8 @@ impl Facade {
             })
             .into()],
         )?;
-        oca_bundle.overlays.iter().for_each(|overlay| {
-            let _ = self.db.insert(
+        for overlay in &oca_bundle.overlays {
+            self.db.insert(
                 Namespace::OCARelations,
                 &format!("{}.metadata", overlay.said().clone().unwrap()),
                 &[ObjectKind::Overlay(
@@ -55,8 +64,8 @@ impl Facade {
                     },
                 )
                 .into()],
-            );
-        });
+            )?;
+        }
 
         Ok(())
     }
@@ -67,37 +76,22 @@ impl Facade {
         let oca_bundle_said = oca_bundle.said.clone().unwrap().to_string();
         let capture_base_said = oca_bundle.capture_base.said.clone().unwrap().to_string();
 
-        let mut oca_bundle_rel =
-            self.explore(oca_bundle_said.clone())
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    oca_bundle_said.clone(),
-                )));
-        oca_bundle_rel.add_relation(OCAObject::new(self, capture_base_said.clone()));
-
-        let mut capture_base_rel =
-            self.explore(capture_base_said.clone())
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    capture_base_said.clone(),
-                )));
-        capture_base_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone()));
+        let mut oca_bundle_rel = self.relationship_or_new(oca_bundle_said.clone())?;
+        oca_bundle_rel.add_relation(OCAObject::new(self, capture_base_said.clone())?);
+
+        let mut capture_base_rel = self.relationship_or_new(capture_base_said.clone())?;
+        capture_base_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone())?);
 
         for overlay in oca_bundle.overlays {
             let overlay_said = overlay.said().clone().unwrap().to_string();
 
-            oca_bundle_rel.add_relation(OCAObject::new(self, overlay_said.clone()));
-            capture_base_rel.add_relation(OCAObject::new(self, overlay_said.clone()));
+            oca_bundle_rel.add_relation(OCAObject::new(self, overlay_said.clone())?);
+            capture_base_rel.add_relation(OCAObject::new(self, overlay_said.clone())?);
 
-            let mut overlay_rel = self
-                .explore(overlay_said.clone())
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    overlay_said.clone(),
-                )));
+            let mut overlay_rel = self.relationship_or_new(overlay_said.clone())?;
 
-            overlay_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone()));
-            overlay_rel.add_relation(OCAObject::new(self, capture_base_said.clone()));
+            overlay_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone())?);
+            overlay_rel.add_relation(OCAObject::new(self, capture_base_said.clone())?);
             let overlay_rel_u8: Vec<u8> = overlay_rel.clone().into();
             self.db.insert(
                 Namespace::OCARelations,
@@ -123,13 +117,16 @@ impl Facade {
         Ok(())
     }
 
-    fn object_type(&self, said: String) -> ObjectKind {
+    fn object_type(&self, said: String) -> Result<ObjectKind, String> {
         let object_type = self
             .db
-            .get(Namespace::OCARelations, &format!("{}.metadata", said))
-            .unwrap();
+            .get(Namespace::OCARelations, &format!("{}.metadata", said))?
+            .ok_or_else(|| format!("No metadata found for said: {}", said))?;
+        let object_type = object_type
+            .first()
+            .ok_or_else(|| format!("Malformed metadata for said: {}", said))?;
 
-        (*object_type.unwrap().first().unwrap()).into()
+        Ok((*object_type).into())
     }
 }
 
@@ -236,10 +233,10 @@ impl Serialize for OCAObject {
 }
 
 impl OCAObject {
-    fn new(facade: &Facade, said: String) -> Self {
-        Self {
+    fn new(facade: &Facade, said: String) -> Result<Self, String> {
+        Ok(Self {
             said: said.clone(),
-            object_type: facade.object_type(said),
-        }
+            object_type: facade.object_type(said)?,
+        })
     }
 }
diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index e313e5b..02a91af 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -39,13 +39,14 @@ impl CaptureBaseCacheRepo {
         Self { connection }
     }
 
-    pub fn insert(&self, model: CaptureBaseCacheRecord) {
+    pub fn insert(&self, model: CaptureBaseCacheRecord) -> Result<(), String> {
         let query = r#"
-        INSERT INTO capture_base_cache(said, capture_base)
+        INSERT OR IGNORE INTO capture_base_cache(said, capture_base)
             VALUES (?1, ?2)"#;
-        let _ = self
-            .connection
-            .execute(query, [&model.said, &model.capture_base]);
+        self.connection
+            .execute(query, [&model.said, &model.capture_base])
+            .map(|_| ())
+            .map_err(|e| e.to_string())
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 85ce2f1..d918206 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -42,13 +42,14 @@ impl OCABundleCacheRepo {
         Self { connection }
     }
 
-    pub fn insert(&self, model: OCABundleCacheRecord) {
+    pub fn insert(&self, model: OCABundleCacheRecord) -> Result<(), String> {
         let query = r#"
-        INSERT INTO oca_bundle_cache(said, oca_bundle)
+        INSERT OR IGNORE INTO oca_bundle_cache(said, oca_bundle)
             VALUES (?1, ?2)"#;
-        let _ = self
-            .connection
-            .execute(query, [&model.said, &model.oca_bundle]);
+        self.connection
+            .execute(query, [&model.said, &model.oca_bundle])
+            .map(|_| ())
+            .map_err(|e| e.to_string())
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 7d63b15..9158e84 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -48,9 +48,9 @@ impl OCABundleFTSRepo {
         Self { connection }
     }
 
-    pub fn insert(&self, model: OCABundleFTSRecord) {
+    pub fn insert(&self, model: OCABundleFTSRecord) -> Result<(), String> {
         let query = r#"
-        INSERT INTO oca_bundle_fts
+        INSERT OR IGNORE INTO oca_bundle_fts
         (rowid, name, description, language_code, oca_bundle_said)
         VALUES (
             (
@@ -59,15 +59,18 @@ impl OCABundleFTSRepo {
                 LIMIT 1
             ), ?1, ?2, ?3, ?4
         )"#;
-        let _ = self.connection.execute(
-            query,
-            [
-                &model.name,
-                &model.description,
-                &model.language_code,
-                &model.oca_bundle_said,
-            ],
-        );
+        self.connection
+            .execute(
+                query,
+                [
+                    &model.name,
+                    &model.description,
+                    &model.language_code,
+                    &model.oca_bundle_said,
+                ],
+            )
+            .map(|_| ())
+            .map_err(|e| e.to_string())
     }
 
     pub fn search(
-- 
2.43.0


From 7db1d760e789f8f101ac2a5cbc92e05f7cd96cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 04/31] fix: re-reaching a bundle does not overwrite its
 history

---
 oca/src/facade/build.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 61d72c5..867f24f 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -307,11 +307,12 @@ impl Facade {
         let command_str = serde_json::to_string(&step.command).unwrap();
         input.extend(command_str.as_bytes());
         let result_bundle = step.result.clone();
-        self.db.insert(
-            Namespace::OCA,
-            &format!("oca.{}.operation", result_bundle.said.clone().unwrap()),
-            &input,
-        )?;
+        let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
+        // The bundle keeps the operation it was first reached by: a later one may
+        // start from the bundle itself, which would close the history into a cycle
+        if self.db.get(Namespace::OCA, &operation_key)?.is_none() {
+            self.db.insert(Namespace::OCA, &operation_key, &input)?;
+        }
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
-- 
2.43.0


From d888fe251b6bddd9aa63bfe397d89eed382cbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 05/31] fix: concurrent builds on a shared store do not lose
 relations

---
 oca/src/facade/build.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 867f24f..4a788c3 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -18,6 +18,9 @@ use oca_bundle_semantics::Encode;
 use oca_dag_semantics::build_core_db_model;
 use said::derivation::HashFunctionCode;
 use said::sad::SerializationFormats;
+use std::sync::{Mutex, PoisonError};
+
+static STORE_LOCK: Mutex<()> = Mutex::new(());
 
 #[derive(thiserror::Error, Debug, serde::Serialize)]
 #[serde(untagged)]
@@ -132,6 +135,9 @@ impl Facade {
     /// Stores everything the build consists of. The records which make the
     /// bundle discoverable are written last, so whatever is found is complete.
     fn store_build(&mut self, oca_build: &OCABuild) -> Result<(), String> {
+        // Relations are read, extended and written back. Facades may share the store.
+        let _lock = STORE_LOCK.lock().unwrap_or_else(PoisonError::into_inner);
+
         for step in &oca_build.steps {
             self.build_step(step)?;
         }
-- 
2.43.0


From 8ebcd64853ad0a726c6fe820deffdd0261cab7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 06/31] fix: references inside nested arrays are dereferenced
 and fetched as dependencies

---
 oca/src/facade/fetch.rs     | 17 +++++---------
 oca/src/local_references.rs | 46 ++++++++++++++++++-------------------
 2 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index f588588..dae66d7 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -409,17 +409,12 @@ fn retrive_all_references(bundle: OCABundle) -> Vec<SelfAddressingIdentifier> {
     let mut refs: Vec<SelfAddressingIdentifier> = vec![];
 
     for (_, value) in bundle.capture_base.attributes {
-        match value {
-            ast::NestedAttrType::Reference(RefValue::Said(said)) => {
-                refs.push(said);
-            }
-            // TODO(recursion) handle nested arrays
-            ast::NestedAttrType::Array(box_attr_type) => {
-                if let ast::NestedAttrType::Reference(RefValue::Said(said)) = &*box_attr_type {
-                    refs.push(said.clone());
-                }
-            }
-            _ => {}
+        let mut attr_type = value;
+        while let ast::NestedAttrType::Array(box_attr_type) = attr_type {
+            attr_type = *box_attr_type;
+        }
+        if let ast::NestedAttrType::Reference(RefValue::Said(said)) = attr_type {
+            refs.push(said);
         }
     }
     refs
diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index 0a34b37..c6410b0 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -23,30 +23,7 @@ pub fn replace_refn_with_refs<R: References>(
         {
             if let Some(attributes) = &mut content.attributes {
                 for (_, attr_type) in attributes {
-                    match attr_type {
-                        NestedAttrType::Reference(RefValue::Name(refn)) => {
-                            if let Some(said) = references.find(refn) {
-                                let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                *attr_type = NestedAttrType::Reference(RefValue::Said(said));
-                            } else {
-                                return Err(ValidationError::UnknownRefn(refn.clone()));
-                            }
-                        }
-                        NestedAttrType::Array(box_attr_type) => {
-                            if let NestedAttrType::Reference(RefValue::Name(refn)) =
-                                &**box_attr_type
-                            {
-                                if let Some(said) = references.find(refn) {
-                                    let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                    **box_attr_type =
-                                        NestedAttrType::Reference(RefValue::Said(said));
-                                } else {
-                                    return Err(ValidationError::UnknownRefn(refn.clone()));
-                                }
-                            }
-                        }
-                        _ => (),
-                    }
+                    replace_refn_in_attr_type(attr_type, references)?;
                 }
             }
         }
@@ -73,3 +50,24 @@ pub fn replace_refn_with_refs<R: References>(
     }
     Ok(())
 }
+
+fn replace_refn_in_attr_type<R: References>(
+    attr_type: &mut NestedAttrType,
+    references: &R,
+) -> Result<(), ValidationError> {
+    match attr_type {
+        NestedAttrType::Reference(RefValue::Name(refn)) => {
+            if let Some(said) = references.find(refn) {
+                let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
+                *attr_type = NestedAttrType::Reference(RefValue::Said(said));
+                Ok(())
+            } else {
+                Err(ValidationError::UnknownRefn(refn.clone()))
+            }
+        }
+        NestedAttrType::Array(box_attr_type) => {
+            replace_refn_in_attr_type(box_attr_type, references)
+        }
+        _ => Ok(()),
+    }
+}
-- 
2.43.0


From 839f121a4b38f1ef32477bf5069610598d9e0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 07/31] fix: a reference name is saved only after its bundle is
 stored, lookup errors are reported

---
 oca/src/facade/build.rs     | 65 ++++++++++++++++++++++++++++++-------
 oca/src/local_references.rs | 20 ++++++++++--
 2 files changed, 72 insertions(+), 13 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 4a788c3..7608664 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -54,19 +54,28 @@ pub enum ValidationError {
     #[cfg(feature = "local-references")]
     #[error("Reference {0} not found")]
     UnknownRefn(String),
+    #[error("Storage error: {0}")]
+    StorageError(String),
 }
 
 #[cfg(feature = "local-references")]
 impl References for Box<dyn DataStorage> {
     fn find(&self, refn: &str) -> Option<String> {
-        self.get(Namespace::OCAReferences, refn)
-            .unwrap()
-            .map(|said| String::from_utf8(said).unwrap())
+        self.try_find(refn).unwrap()
     }
 
     fn save(&mut self, refn: &str, value: String) {
+        self.try_save(refn, value).unwrap()
+    }
+
+    fn try_find(&self, refn: &str) -> Result<Option<String>, String> {
+        self.get(Namespace::OCAReferences, refn)?
+            .map(|said| String::from_utf8(said).map_err(|e| e.to_string()))
+            .transpose()
+    }
+
+    fn try_save(&mut self, refn: &str, value: String) -> Result<(), String> {
         self.insert(Namespace::OCAReferences, refn, value.to_string().as_bytes())
-            .unwrap()
     }
 }
 
@@ -157,11 +166,25 @@ impl Facade {
         match ast {
             oca_file::ocafile::OCAAst::TransformationAst(_) => Err(Error::Deprecated),
             oca_file::ocafile::OCAAst::SemanticsAst(_ast) => {
+                #[cfg(not(feature = "local-references"))]
                 let oca_build = self
                     .validate_ocafile(ocafile)
                     .map_err(Error::ValidationError)?;
+                #[cfg(feature = "local-references")]
+                let (oca_build, schema_name) = Self::parse_and_check_base(self.storage(), ocafile)
+                    .and_then(|(base, oca_ast)| {
+                        Self::dereference_and_build(base, oca_ast, &self.db)
+                    })
+                    .map_err(Error::ValidationError)?;
+
+                let oca_bundle = self.build(&oca_build)?;
+
+                // The name may resolve to the bundle only when the bundle is stored
+                #[cfg(feature = "local-references")]
+                Self::save_schema_name(schema_name, &oca_build, &mut self.db)
+                    .map_err(Error::StorageError)?;
 
-                self.build(&oca_build)
+                Ok(oca_bundle)
             }
         }
     }
@@ -231,9 +254,21 @@ impl Facade {
     #[cfg(feature = "local-references")]
     fn oca_ast_to_oca_build_with_references<R: References>(
         base: Option<OCABundle>,
-        mut oca_ast: OCAAst,
+        oca_ast: OCAAst,
         references: &mut R,
     ) -> Result<OCABuild, Vec<ValidationError>> {
+        let (oca_build, schema_name) = Self::dereference_and_build(base, oca_ast, references)?;
+        Self::save_schema_name(schema_name, &oca_build, references)
+            .map_err(|e| vec![ValidationError::StorageError(e)])?;
+        Ok(oca_build)
+    }
+
+    #[cfg(feature = "local-references")]
+    fn dereference_and_build<R: References>(
+        base: Option<OCABundle>,
+        mut oca_ast: OCAAst,
+        references: &R,
+    ) -> Result<(OCABuild, Option<String>), Vec<ValidationError>> {
         // Dereference (refn -> refs) the AST before it start processing bundle steps, otherwise the SAID would
         // not match.
         local_references::replace_refn_with_refs(&mut oca_ast, references).map_err(|e| vec![e])?;
@@ -244,15 +279,23 @@ impl Facade {
                 .collect::<Vec<_>>()
         })?;
 
-        let schema_name = oca_ast.meta.get("name");
+        let schema_name = oca_ast.meta.get("name").cloned();
         debug!("Schema name found: {:?}", schema_name);
 
-        if schema_name.is_some() {
-            let schema_name = schema_name.unwrap();
+        Ok((oca_build, schema_name))
+    }
+
+    #[cfg(feature = "local-references")]
+    fn save_schema_name<R: References>(
+        schema_name: Option<String>,
+        oca_build: &OCABuild,
+        references: &mut R,
+    ) -> Result<(), String> {
+        if let Some(schema_name) = schema_name {
             let said = oca_build.oca_bundle.said.clone().unwrap().to_string();
-            references.save(schema_name, said.clone());
+            references.try_save(&schema_name, said)?;
         };
-        Ok(oca_build)
+        Ok(())
     }
 
     fn build_cache(&self, oca_bundle: &OCABundle) -> Result<(), String> {
diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index c6410b0..fbbf190 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -10,6 +10,16 @@ use crate::facade::build::ValidationError;
 pub trait References {
     fn find(&self, refn: &str) -> Option<String>;
     fn save(&mut self, refn: &str, value: String);
+
+    /// As `find`, for references whose lookup may fail.
+    fn try_find(&self, refn: &str) -> Result<Option<String>, String> {
+        Ok(self.find(refn))
+    }
+    /// As `save`, for references whose update may fail.
+    fn try_save(&mut self, refn: &str, value: String) -> Result<(), String> {
+        self.save(refn, value);
+        Ok(())
+    }
 }
 
 // Iterate over all commands and dereference all attribute references
@@ -34,7 +44,10 @@ pub fn replace_refn_with_refs<R: References>(
             if let Some(properties) = &mut content.properties {
                 if let Some(NestedValue::Reference(RefValue::Name(refn))) = properties.get("target")
                 {
-                    if let Some(said) = references.find(refn) {
+                    let said = references
+                        .try_find(refn)
+                        .map_err(ValidationError::StorageError)?;
+                    if let Some(said) = said {
                         let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
                         properties.insert(
                             "target".to_string(),
@@ -57,7 +70,10 @@ fn replace_refn_in_attr_type<R: References>(
 ) -> Result<(), ValidationError> {
     match attr_type {
         NestedAttrType::Reference(RefValue::Name(refn)) => {
-            if let Some(said) = references.find(refn) {
+            let said = references
+                .try_find(refn)
+                .map_err(ValidationError::StorageError)?;
+            if let Some(said) = said {
                 let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
                 *attr_type = NestedAttrType::Reference(RefValue::Said(said));
                 Ok(())
-- 
2.43.0


From 1c8897c3a8e374a77a62f10ecbdca4adbed3d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 08/31] fix: malformed or unreadable history, objects and
 references are errors, not panics

---
 oca/src/facade/fetch.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index dae66d7..8a9ea3c 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -126,8 +126,7 @@ impl Facade {
     pub fn fetch_all_refs(&self) -> Result<HashMap<String, String>, String> {
         let mut refs: HashMap<String, String> = HashMap::new();
         self.db
-            .get_all(Namespace::OCAReferences)
-            .unwrap()
+            .get_all(Namespace::OCAReferences)?
             .iter()
             .for_each(|(k, v)| {
                 refs.insert(k.clone(), String::from_utf8(v.to_vec()).unwrap());
@@ -232,7 +231,13 @@ impl Facade {
                     errors.push(e.to_string());
                     errors.clone()
                 })?;
-            let o_type: ObjectKind = (*r_type.unwrap().first().unwrap()).into();
+            let o_type = r_type
+                .and_then(|r_type| r_type.first().copied())
+                .ok_or_else(|| {
+                    errors.push(format!("No metadata found for said: {}", said));
+                    errors.clone()
+                })?;
+            let o_type: ObjectKind = o_type.into();
             match o_type {
                 ObjectKind::CaptureBase(_) => result.push(OCAObject::CaptureBase(
                     serde_json::from_str::<CaptureBase>(&object_str).map_err(|e| {
@@ -283,13 +288,14 @@ impl Facade {
                 .map_err(|e| vec![format!("{}", e)])?
                 .ok_or_else(|| vec![format!("No history found for said: {}", said)])?;
 
-            let said_length = r.first().unwrap();
-            let parent_said = String::from_utf8_lossy(&r[1..*said_length as usize + 1]).to_string();
-            let op_length = r.len() - *said_length as usize - 1;
-            let op = String::from_utf8_lossy(
-                &r[*said_length as usize + 1..*said_length as usize + 1 + op_length],
-            )
-            .to_string();
+            let malformed = || vec![format!("Malformed operation for said: {}", said)];
+            let (said_length, r) = r.split_first().ok_or_else(malformed)?;
+            if r.len() < *said_length as usize {
+                return Err(malformed());
+            }
+            let (parent_said, op) = r.split_at(*said_length as usize);
+            let parent_said = String::from_utf8_lossy(parent_said).to_string();
+            let op = String::from_utf8_lossy(op).to_string();
 
             match serde_json::from_str::<oca_ast_semantics::ast::Command>(&op) {
                 Ok(command) => Ok((parent_said, command)),
@@ -302,14 +308,14 @@ impl Facade {
         loop {
             let (parent_said, command) = extract_operation(&self.db, &said)?;
             if parent_said == said {
-                dbg!("Malformed history for said: {}", said);
                 return Err(vec![format!("Malformed history")]);
             }
-            let s = SelfAddressingIdentifier::from_str(&said).unwrap(); // TODO
+            let s = SelfAddressingIdentifier::from_str(&said)
+                .map_err(|e| vec![format!("Malformed history: {}", e)])?;
             history.push(OCABuildStep {
                 parent_said: parent_said.clone().parse().ok(),
                 command,
-                result: self.get_oca_bundle(s, false).unwrap().bundle.clone(),
+                result: self.get_oca_bundle(s, false)?.bundle,
             });
             said = parent_said;
 
-- 
2.43.0


From 4c6f81633d5dedb16b06ee8302ab810b0bfe3f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 09/31] fix: a query that panics does not block the search
 database for good

---
 oca/src/facade/mod.rs                           | 12 +++++++++---
 oca/src/repositories/capture_base_cache_repo.rs |  2 +-
 oca/src/repositories/oca_bundle_cache_repo.rs   |  2 +-
 oca/src/repositories/oca_bundle_fts_repo.rs     |  2 +-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/oca/src/facade/mod.rs b/oca/src/facade/mod.rs
index c2d075e..348565b 100644
--- a/oca/src/facade/mod.rs
+++ b/oca/src/facade/mod.rs
@@ -3,7 +3,7 @@ use rusqlite::Params;
 use crate::data_storage::DataStorage;
 use crate::repositories::SQLiteConfig;
 use std::borrow::Borrow;
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 
 pub mod build;
 pub mod bundle;
@@ -28,8 +28,14 @@ impl Connection {
     where
         P: Params,
     {
-        let connection = self.connection.lock().unwrap();
-        connection.execute(sql, params)
+        self.lock().execute(sql, params)
+    }
+
+    /// A query which panicked leaves nothing half-done behind its mutex.
+    pub(crate) fn lock(&self) -> MutexGuard<'_, rusqlite::Connection> {
+        self.connection
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner)
     }
 }
 
diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index 02a91af..4a86ef6 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -68,7 +68,7 @@ impl CaptureBaseCacheRepo {
         ON true
         GROUP BY said";
 
-        let connection = self.connection.connection.lock().unwrap();
+        let connection = self.connection.lock();
         let mut statement = connection.prepare(query).unwrap();
 
         let models = statement
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index d918206..49126c7 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -71,7 +71,7 @@ impl OCABundleCacheRepo {
         ON true
         GROUP BY said";
 
-        let connection = self.connection.connection.lock().unwrap();
+        let connection = self.connection.lock();
         let mut statement = connection.prepare(query).unwrap();
         let models = statement
             .query_map([limit, offset], |row| {
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 9158e84..a2c3ddf 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -167,7 +167,7 @@ meta_overlay:{}
             }
         }
 
-        let connection = self.connection.connection.lock().unwrap();
+        let connection = self.connection.lock();
         let mut statement = connection.prepare(sql_query).unwrap();
 
         let rows = statement
-- 
2.43.0


From d0946de449b6d6a89907417bc695b4d86e1aca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 10/31] fix: no page or limit makes a listing or search fail

---
 oca/src/repositories/capture_base_cache_repo.rs | 3 ++-
 oca/src/repositories/mod.rs                     | 7 +++++++
 oca/src/repositories/oca_bundle_cache_repo.rs   | 3 ++-
 oca/src/repositories/oca_bundle_fts_repo.rs     | 3 ++-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index 4a86ef6..1654f26 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -1,5 +1,6 @@
 use oca_bundle_semantics::state::oca::capture_base::CaptureBase;
 
+use super::limit_and_offset;
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -50,7 +51,7 @@ impl CaptureBaseCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = limit_and_offset(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/mod.rs b/oca/src/repositories/mod.rs
index bbd565a..3b0b3a1 100644
--- a/oca/src/repositories/mod.rs
+++ b/oca/src/repositories/mod.rs
@@ -38,3 +38,10 @@ impl SQLiteConfigBuilder {
         self.finalize().unwrap()
     }
 }
+
+/// LIMIT and OFFSET of a page, within the range of integers SQLite supports.
+fn limit_and_offset(limit: usize, page: usize) -> (usize, usize) {
+    let max = i64::MAX as usize;
+    let offset = page.saturating_sub(1).saturating_mul(limit);
+    (limit.min(max), offset.min(max))
+}
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 49126c7..45ddabd 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -1,6 +1,7 @@
 use oca_bundle_semantics::{state::oca::OCABundle, Encode};
 use said::{derivation::HashFunctionCode, sad::SerializationFormats};
 
+use super::limit_and_offset;
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -53,7 +54,7 @@ impl OCABundleCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = limit_and_offset(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index a2c3ddf..320b498 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -2,6 +2,7 @@ use std::str::FromStr;
 
 use said::SelfAddressingIdentifier;
 
+use super::limit_and_offset;
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -80,7 +81,7 @@ impl OCABundleFTSRepo {
         limit: usize,
         page: usize,
     ) -> SearchResult {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = limit_and_offset(limit, page);
         let query = match language {
             Some(lang) => {
                 let lang_code = isolang::Language::to_639_3(&lang).to_string();
-- 
2.43.0


From 3c9b70547d0597f39b76dfd47215d76fd1731b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 11/31] fix: the search phrase is not interpreted as FTS5 or
 regex syntax

---
 oca/src/repositories/oca_bundle_fts_repo.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 320b498..5160ff9 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -82,6 +82,11 @@ impl OCABundleFTSRepo {
         page: usize,
     ) -> SearchResult {
         let (limit, offset) = limit_and_offset(limit, page);
+        // The query is a phrase to look for, none of its characters is FTS5 syntax
+        let meta_query = format!(
+            "\"{}\"",
+            meta_query.replace('\0', "\u{FFFD}").replace('"', "\"\"")
+        );
         let query = match language {
             Some(lang) => {
                 let lang_code = isolang::Language::to_639_3(&lang).to_string();
@@ -136,15 +141,14 @@ impl OCABundleFTSRepo {
                 let mut snippet_regex = self.snippet.clone().unwrap();
                 snippet_regex = snippet_regex.replace("<mark>", "");
                 snippet_regex = snippet_regex.replace("</mark>", "");
-                let mut v: Vec<String> =
-                    snippet_regex.split("...").map(|x| x.to_string()).collect();
-                if v.first().unwrap().is_empty() {
+                let mut v: Vec<String> = snippet_regex.split("...").map(regex::escape).collect();
+                if v.first().is_some_and(|x| x.is_empty()) {
                     v.remove(0);
                     if let Some(x) = v.first_mut() {
                         *x = format!(".*{}", x);
                     }
                 }
-                if v.last().unwrap().is_empty() {
+                if v.last().is_some_and(|x| x.is_empty()) {
                     v.pop();
                     if let Some(x) = v.last_mut() {
                         *x = format!("{}.*", x);
-- 
2.43.0


From f121b321bff0283bbda0848c26d3caa9ee826d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 12/31] fix: a later unit, entry codes or entry codes mapping
 of an attribute replaces the earlier

---
 semantics/oca-bundle/src/state/attribute.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 33ab18c..f56f658 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -102,17 +102,17 @@ impl Attribute {
                 self.format.clone_from(&other.format);
             }
 
-            if self.unit.is_none() {
+            if other.unit.is_some() {
                 self.unit.clone_from(&other.unit);
             }
 
-            if self.entry_codes.is_none() {
+            if other.entry_codes.is_some() {
                 self.entry_codes.clone_from(&other.entry_codes);
             }
 
             self.merge_entries(other);
 
-            if self.entry_codes_mapping.is_none() {
+            if other.entry_codes_mapping.is_some() {
                 self.entry_codes_mapping
                     .clone_from(&other.entry_codes_mapping);
             }
-- 
2.43.0


From fc8a3a105f19ef4c067281c3382306ba2b80411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 13/31] fix: grouped entry codes are serialized sorted, so the
 SAID survives storing

---
 semantics/oca-bundle/src/state/entry_codes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/entry_codes.rs b/semantics/oca-bundle/src/state/entry_codes.rs
index 9a1bddc..8577987 100644
--- a/semantics/oca-bundle/src/state/entry_codes.rs
+++ b/semantics/oca-bundle/src/state/entry_codes.rs
@@ -3,6 +3,7 @@ use serde::{
     ser::{SerializeMap, SerializeSeq},
     Deserialize, Serialize,
 };
+use std::collections::BTreeMap;
 
 impl Serialize for EntryCodes {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -22,7 +23,7 @@ impl Serialize for EntryCodes {
             }
             Self::Object(codes) => {
                 let mut map = serializer.serialize_map(Some(codes.len()))?;
-                let sorted_codes: IndexMap<_, _> = codes.iter().collect();
+                let sorted_codes: BTreeMap<_, _> = codes.iter().collect();
                 for (k, v) in sorted_codes {
                     map.serialize_entry(k, v)?;
                 }
-- 
2.43.0


From 3e0aa022802caa6ff2152ca9998418fff7614adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 14/31] fix: framing metadata of a frame is the latest given,
 whatever the order attributes are visited in

---
 semantics/oca-bundle/src/build.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index b6e5ea5..5198bc2 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -498,6 +498,17 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         errors.push("Undefined frame id".to_string());
                     }
 
+                    // The metadata belongs to the frame, all of its scopes share the latest
+                    let mut merged_meta = HashMap::new();
+                    for scope in frame_scopes(&mut oca, &frame_id) {
+                        merged_meta.extend(scope.frame_meta.clone());
+                    }
+                    merged_meta.extend(frame_meta);
+                    let frame_meta = merged_meta;
+                    for scope in frame_scopes(&mut oca, &frame_id) {
+                        scope.frame_meta.clone_from(&frame_meta);
+                    }
+
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
                             let mut attribute = oca
@@ -568,6 +579,16 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
     }
 }
 
+fn frame_scopes<'a>(
+    oca: &'a mut OCABox,
+    frame_id: &'a Option<String>,
+) -> impl Iterator<Item = &'a mut FramingScope> {
+    oca.attributes
+        .values_mut()
+        .filter_map(|attribute| attribute.framings.as_mut()?.get_mut(frame_id.as_ref()?))
+        .flat_map(|framing| framing.values_mut())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 5e40fe22b233f4d23a95428c1418455d1626f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 15/31] fix: an empty OCAFile, an unsupported command or
 language and a reserved meta property are errors, not panics

---
 semantics/oca-bundle/src/build.rs     | 40 +++++++++++++++++++++------
 semantics/oca-bundle/src/state/oca.rs |  4 +--
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 5198bc2..1377348 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -110,9 +110,16 @@ pub fn from_ast(
             }
         }
     }
-    if errors.is_empty() {
+    if errors.is_empty() && base.is_none() {
+        errors.push(Error::FromASTError {
+            line_number: default_command_meta.line_number,
+            raw_line: default_command_meta.raw_line,
+            message: "No commands found".to_string(),
+        });
+    }
+    if let (Some(mut base), true) = (base, errors.is_empty()) {
         Ok(OCABuild {
-            oca_bundle: base.unwrap().generate_bundle(),
+            oca_bundle: base.generate_bundle(),
             steps,
         })
     } else {
@@ -163,8 +170,18 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         if let Some(ast::NestedValue::Value(lang_str)) = lang {
                             lang_iso = isolang::Language::from_639_1(lang_str.as_str());
                         }
+                        if lang_iso.is_none() {
+                            return Err(vec!["Unsupported language".to_string()]);
+                        }
 
                         for (prop_name, prop_value) in mut_properties {
+                            // Members every meta overlay has on its own
+                            if ["d", "capture_base", "type", "language"]
+                                .contains(&prop_name.as_str())
+                            {
+                                errors.push(format!("Reserved property: {prop_name}"));
+                                continue;
+                            }
                             if let ast::NestedValue::Value(value) = prop_value {
                                 oca.add_meta(lang_iso.unwrap(), prop_name.clone(), value.clone());
                             }
@@ -180,6 +197,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             lang_iso = isolang::Language::from_639_1(lang_str.as_str());
                         }
                     }
+                    if lang_iso.is_none() {
+                        return Err(vec!["Unsupported language".to_string()]);
+                    }
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -206,6 +226,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             lang_iso = isolang::Language::from_639_1(lang_str.as_str());
                         }
                     }
+                    if lang_iso.is_none() {
+                        return Err(vec!["Unsupported language".to_string()]);
+                    }
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -408,6 +431,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             lang_iso = isolang::Language::from_639_1(lang_str.as_str());
                         }
                     }
+                    if lang_iso.is_none() {
+                        return Err(vec!["Unsupported language".to_string()]);
+                    }
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -550,7 +576,6 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 _ => (),
             }
         }
-        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => todo!(),
         (ast::CommandType::Remove, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, _) in attributes {
@@ -565,11 +590,10 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 }
             }
         }
-        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::CaptureBase(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::Overlay(_, _)) => todo!(),
+        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_))
+        | (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_))
+        | (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _))
+        | (ast::CommandType::Modify, _) => errors.push("Unsupported command".to_string()),
     }
 
     if errors.is_empty() {
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 241336f..a0f14c5 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -642,10 +642,10 @@ where
             while let Some((_, value)) = map.next_entry::<String, serde_value::Value>()? {
                 if let serde_value::Value::Seq(ov) = value {
                     for o in ov {
-                        overlays.push(o.deserialize_into().unwrap());
+                        overlays.push(o.deserialize_into().map_err(serde::de::Error::custom)?);
                     }
                 } else if let serde_value::Value::Map(_) = value {
-                    overlays.push(value.deserialize_into().unwrap());
+                    overlays.push(value.deserialize_into().map_err(serde::de::Error::custom)?);
                 }
             }
 
-- 
2.43.0


From e10a0eadf615672361abaeda657b90c05227980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 16/31] fix: search database commits survive a power loss

---
 oca/src/facade/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oca/src/facade/mod.rs b/oca/src/facade/mod.rs
index 348565b..ebf22d6 100644
--- a/oca/src/facade/mod.rs
+++ b/oca/src/facade/mod.rs
@@ -19,6 +19,8 @@ pub struct Connection {
 impl Connection {
     pub fn new(path: &str) -> Self {
         let conn = rusqlite::Connection::open(path).unwrap();
+        // Without syncing the directory a commit may be rolled back after a power loss
+        conn.pragma_update(None, "synchronous", "EXTRA").unwrap();
         Self {
             connection: Arc::new(Mutex::new(conn)),
         }
-- 
2.43.0


From 7af445e8f0104aa46362fc2f13152b6c0f9557e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 17/31] fix: repeating an interrupted addition to the version
 graph does not duplicate the child

---
 semantics/oca-dag/src/versioning/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/semantics/oca-dag/src/versioning/mod.rs b/semantics/oca-dag/src/versioning/mod.rs
index 8db25d3..7c873b5 100644
--- a/semantics/oca-dag/src/versioning/mod.rs
+++ b/semantics/oca-dag/src/versioning/mod.rs
@@ -43,6 +43,16 @@ impl Graph {
         let mut digests: Vec<u8> = Vec::new();
         if let Some(children_digest) = children_digest {
             digests.extend(children_digest);
+
+            // A repeated addition leaves the child where it already is
+            let mut children = children_digest;
+            while let Some((length, tail)) = children.split_first() {
+                let (child, tail) = tail.split_at((*length as usize).min(tail.len()));
+                if child == new.as_bytes() {
+                    return digests;
+                }
+                children = tail;
+            }
         }
         digests.push(new.len().try_into().unwrap());
         digests.extend(new.as_bytes());
-- 
2.43.0


From a1d6190b09146153b588f3b1aee212e8d7e5b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 18/31] fix: a "--" inside an OCAFile line is not a meta
 comment

The outer grammar fell back to single characters, so a "--" in the middle of
a line (a text, or a SAID named by FROM or refs:) was parsed as the start of
a meta comment and the whole file was refused with "key is empty".
---
 oca-file/src/ocafile.pest | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 626ef22..fc911c2 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -54,8 +54,12 @@ TELUGU | THAANA | THAI | TIBETAN | TIFINAGH | TIRHUTA | TOTO | UGARITIC | VAI |
 VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
+// any other line, left to the precompiler; a "--" in the middle of it (a SAID may
+// contain one) does not start a meta comment
+other_line = _{ (!NEWLINE ~ ANY)+ ~ NEWLINE? }
+
 file = {
   SOI ~
-  (empty_line | meta_comment_line | comment_line | ANY)*
+  (empty_line | meta_comment_line | comment_line | other_line | NEWLINE)*
   ~ EOI
 }
-- 
2.43.0


From 162e157b13a8f5d9bbe5e2b037a112f89a4382ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 19/31] fix: an OCAFile whose base cannot be read is refused

The errors of loading the base named by FROM were collected and dropped, so
a file whose base could not be read was built as if it had no base. A base
which is not stored stays accepted as before.
---
 oca/src/facade/build.rs | 11 ++++++++---
 oca/src/facade/fetch.rs | 27 ++++++++++++++++++---------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 7608664..17294aa 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -1,6 +1,6 @@
 use super::Facade;
 use crate::data_storage::{DataStorage, Namespace};
-use crate::facade::fetch::get_oca_bundle;
+use crate::facade::fetch::find_oca_bundle;
 #[cfg(feature = "local-references")]
 use crate::local_references;
 #[cfg(feature = "local-references")]
@@ -216,10 +216,10 @@ impl Facade {
                     ReferenceAttrType::Reference(refs) => {
                         match refs {
                             RefValue::Said(said) => {
-                                match get_oca_bundle(storage, said, false) {
+                                match find_oca_bundle(storage, &said) {
                                     Ok(oca_bundle) => {
                                         // TODO
-                                        base = Some(oca_bundle.bundle.clone());
+                                        base = oca_bundle;
                                     }
                                     Err(e) => {
                                         let default_command_meta =
@@ -248,6 +248,11 @@ impl Facade {
                 oca_ast.commands.remove(0);
             }
         };
+
+        if !errors.is_empty() {
+            return Err(errors);
+        }
+
         Ok((base, oca_ast))
     }
 
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 8a9ea3c..3593d22 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -374,15 +374,9 @@ pub fn get_oca_bundle(
     said: SelfAddressingIdentifier,
     with_dep: bool,
 ) -> Result<BundleWithDependencies, Vec<String>> {
-    let r = storage
-        .get(Namespace::OCABundlesJSON, &said.to_string())
-        .map_err(|e| vec![format!("{}", e)])?;
-    let oca_bundle_str = String::from_utf8(
-        r.ok_or_else(|| vec![format!("No OCA Bundle found for said: {}", said)])?,
-    )
-    .unwrap();
-    let oca_bundle: Result<OCABundle, Vec<String>> = serde_json::from_str(&oca_bundle_str)
-        .map_err(|e| vec![format!("Failed to parse oca bundle: {}", e)]);
+    let oca_bundle = find_oca_bundle(storage, &said).and_then(|found| {
+        found.ok_or_else(|| vec![format!("No OCA Bundle found for said: {}", said)])
+    });
 
     match oca_bundle {
         Ok(oca_bundle) => {
@@ -404,6 +398,21 @@ pub fn get_oca_bundle(
     }
 }
 
+/// Retrive the OCA Bundle for given said, `None` when there is no such bundle
+pub(crate) fn find_oca_bundle(
+    storage: &dyn DataStorage,
+    said: &SelfAddressingIdentifier,
+) -> Result<Option<OCABundle>, Vec<String>> {
+    storage
+        .get(Namespace::OCABundlesJSON, &said.to_string())
+        .map_err(|e| vec![e])?
+        .map(|oca_bundle| {
+            serde_json::from_slice(&oca_bundle)
+                .map_err(|e| vec![format!("Failed to parse oca bundle: {}", e)])
+        })
+        .transpose()
+}
+
 /// Retrive all existing references from given OCA Bundle
 ///
 /// # Arguments
-- 
2.43.0


From 0deb29336cd9c70cb94d79896667c6eaf6427467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 20/31] fix: what a restarted facade finds in the search
 database is durable

A process which dies between the commit of the search database and the sync
of its directory leaves a commit which the next process sees but which a
power loss may still undo, after the repeated build was acknowledged.
---
 oca/src/facade/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oca/src/facade/mod.rs b/oca/src/facade/mod.rs
index ebf22d6..7a04a73 100644
--- a/oca/src/facade/mod.rs
+++ b/oca/src/facade/mod.rs
@@ -3,6 +3,8 @@ use rusqlite::Params;
 use crate::data_storage::DataStorage;
 use crate::repositories::SQLiteConfig;
 use std::borrow::Borrow;
+#[cfg(unix)]
+use std::path::Path;
 use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 
 pub mod build;
@@ -21,6 +23,11 @@ impl Connection {
         let conn = rusqlite::Connection::open(path).unwrap();
         // Without syncing the directory a commit may be rolled back after a power loss
         conn.pragma_update(None, "synchronous", "EXTRA").unwrap();
+        // The commits of a process which died before syncing it are seen, so they must last
+        #[cfg(unix)]
+        if let Some(dir) = conn.path().and_then(|path| Path::new(path).parent()) {
+            std::fs::File::open(dir).unwrap().sync_all().unwrap();
+        }
         Self {
             connection: Arc::new(Mutex::new(conn)),
         }
-- 
2.43.0


From 01d55a802526b240e53a67b324b417ceff1241f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 21/31] fix: an invalid link target, a framing without an id
 and a malformed reference are errors, not panics

---
 oca/src/local_references.rs       | 10 ++++++++--
 semantics/oca-bundle/src/build.rs | 11 +++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index fbbf190..ebf8221 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -48,7 +48,7 @@ pub fn replace_refn_with_refs<R: References>(
                         .try_find(refn)
                         .map_err(ValidationError::StorageError)?;
                     if let Some(said) = said {
-                        let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
+                        let said = parse_said(refn, &said)?;
                         properties.insert(
                             "target".to_string(),
                             NestedValue::Reference(RefValue::Said(said)),
@@ -74,7 +74,7 @@ fn replace_refn_in_attr_type<R: References>(
                 .try_find(refn)
                 .map_err(ValidationError::StorageError)?;
             if let Some(said) = said {
-                let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
+                let said = parse_said(refn, &said)?;
                 *attr_type = NestedAttrType::Reference(RefValue::Said(said));
                 Ok(())
             } else {
@@ -87,3 +87,9 @@ fn replace_refn_in_attr_type<R: References>(
         _ => Ok(()),
     }
 }
+
+fn parse_said(refn: &str, said: &str) -> Result<SelfAddressingIdentifier, ValidationError> {
+    SelfAddressingIdentifier::from_str(said).map_err(|e| {
+        ValidationError::StorageError(format!("Reference {refn} is not a SAID: {e}"))
+    })
+}
diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 1377348..a94dee7 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -483,9 +483,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             target_bundle = Some(target_said.to_string());
                         }
                     }
-                    if target_bundle.is_none() {
-                        errors.push("Undefined target bundle".to_string());
-                    }
+                    let Some(target_bundle) = target_bundle else {
+                        return Err(vec!["Undefined target bundle".to_string()]);
+                    };
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
@@ -498,8 +498,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(linked_attr) = attr_type_value {
-                                attribute
-                                    .set_link(target_bundle.clone().unwrap(), linked_attr.clone());
+                                attribute.set_link(target_bundle.clone(), linked_attr.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -521,7 +520,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         }
                     }
                     if frame_id.is_none() {
-                        errors.push("Undefined frame id".to_string());
+                        return Err(vec!["Undefined frame id".to_string()]);
                     }
 
                     // The metadata belongs to the frame, all of its scopes share the latest
-- 
2.43.0


From 7c26f6b33df21d36e79882ba4716aebd87ab04a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 22/31] fix: a long text with many escapes does not overflow
 the parser's stack

---
 oca-file/src/ocafile.pest           | 4 ++--
 semantics/oca-file/src/ocafile.pest | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index fc911c2..1d35f77 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -21,9 +21,9 @@ commands = _{
 
 string = ${ single_quoted_string | double_quoted_string }
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 6924889..13763f7 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -15,12 +15,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
-- 
2.43.0


From 6b5026a19a269b118e782bc3b4a664860c3342d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 23/31] fix: an OCAFile nested deeper than can be read back is
 refused

---
 semantics/oca-file/src/ocafile/mod.rs | 36 +++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 027bdf8..e7e8f63 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -42,7 +42,43 @@ impl TryFromPair for Command {
     }
 }
 
+/// Deeper values could not be read back from the JSON they are stored in
+const MAX_NESTING: usize = 100;
+
+/// The deepest nesting of arrays and objects outside of strings
+fn nesting(text: &str) -> usize {
+    let (mut depth, mut deepest, mut quote, mut escaped) = (0usize, 0, None, false);
+    for line in text.split_inclusive('\n') {
+        let start = line.trim_start().to_ascii_lowercase();
+        if ["add", "remove", "from"].iter().any(|c| start.starts_with(c)) {
+            (depth, quote, escaped) = (0, None, false);
+        } else if quote.is_none() && (start.starts_with('#') || start.starts_with("--")) {
+            continue;
+        }
+        for c in line.chars() {
+            match (quote, c) {
+                (Some(_), _) if escaped => escaped = false,
+                (Some(_), '\\') => escaped = true,
+                (Some(q), c) if q == c => quote = None,
+                (Some(_), _) => {}
+                (None, '"' | '\'') => quote = Some(c),
+                (None, '[' | '{') => depth += 1,
+                (None, ']' | '}') => depth = depth.saturating_sub(1),
+                _ => {}
+            }
+            deepest = deepest.max(depth);
+        }
+    }
+    deepest
+}
+
 pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
+    if nesting(&unparsed_file) > MAX_NESTING {
+        return Err(ParseError::Custom(format!(
+            "Values are nested deeper than {MAX_NESTING} levels"
+        )));
+    }
+
     let file = OCAfileParser::parse(Rule::file, &unparsed_file)
         .map_err(|e| {
             let (line_number, column_number) = match e.line_col {
-- 
2.43.0


From cbfa4941ab66ed560ff602407e75c25730cf137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 24/31] fix: rebuilding after an interrupted build makes the
 history record durable

---
 oca/src/facade/build.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 17294aa..c9404b7 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -363,10 +363,13 @@ impl Facade {
         let result_bundle = step.result.clone();
         let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
         // The bundle keeps the operation it was first reached by: a later one may
-        // start from the bundle itself, which would close the history into a cycle
-        if self.db.get(Namespace::OCA, &operation_key)?.is_none() {
-            self.db.insert(Namespace::OCA, &operation_key, &input)?;
-        }
+        // start from the bundle itself, which would close the history into a cycle.
+        // It is stored anew, as an interrupted build may have left it not yet durable
+        let operation = self
+            .db
+            .get(Namespace::OCA, &operation_key)?
+            .unwrap_or(input);
+        self.db.insert(Namespace::OCA, &operation_key, &operation)?;
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
-- 
2.43.0


From 9047ec5272422c80d42bcf76e248f0a3060da6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 25/31] fix: the OCAFile served for a bundle whose base has an
 attribute added again is valid

---
 oca/src/facade/fetch.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 3593d22..05d852b 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -18,7 +18,6 @@ use said::{
 
 use serde::Serialize;
 use std::borrow::Borrow;
-#[cfg(feature = "local-references")]
 use std::collections::HashMap;
 use std::str::FromStr;
 
@@ -339,6 +338,7 @@ impl Facade {
         for step in oca_bundle_steps {
             oca_ast.commands.push(step.command);
         }
+        merge_added_attributes(&mut oca_ast);
 
         if dereference {
             #[cfg(feature = "local-references")]
@@ -369,6 +369,43 @@ impl Facade {
     }
 }
 
+/// A document may add an attribute of its base again to change its type, but not one of its own.
+/// Gives such an attribute its last type where it is added first.
+fn merge_added_attributes(oca_ast: &mut OCAAst) {
+    let mut added: HashMap<String, usize> = HashMap::new();
+    let mut commands: Vec<ast::Command> = vec![];
+
+    for mut command in std::mem::take(&mut oca_ast.commands) {
+        if let ObjectKind::CaptureBase(content) = &mut command.object_kind {
+            if let Some(attributes) = &mut content.attributes {
+                let before = attributes.len();
+                attributes.retain(|name, attr_type| {
+                    if command.kind == ast::CommandType::Remove {
+                        added.remove(name);
+                        return true;
+                    }
+                    let first = *added.entry(name.clone()).or_insert(commands.len());
+                    if let Some(ObjectKind::CaptureBase(earlier)) =
+                        commands.get_mut(first).map(|c| &mut c.object_kind)
+                    {
+                        if let Some(attributes) = &mut earlier.attributes {
+                            attributes.insert(name.clone(), attr_type.clone());
+                        }
+                        return false;
+                    }
+                    true
+                });
+                if before > 0 && attributes.is_empty() && content.properties.is_none() {
+                    continue;
+                }
+            }
+        }
+        commands.push(command);
+    }
+
+    oca_ast.commands = commands;
+}
+
 pub fn get_oca_bundle(
     storage: &dyn DataStorage,
     said: SelfAddressingIdentifier,
-- 
2.43.0


From 271bfeb3f1e419d2e581a05884b99c81920e98c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 26/31] fix: report failures while building into the version
 store instead of storing an empty bundle

---
 semantics/oca-dag/src/versioning/ocafile.rs | 34 +++++++++++----------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 6a84079..5d7584a 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -20,21 +20,19 @@ pub fn build_oca(
                 None => return Err("Missing bundle content".to_string()),
             };
             let oca_bundle_str = match db.get(&format!("oca.{}", said))? {
-                Some(oca_bundle_str) => String::from_utf8(oca_bundle_str).unwrap(),
+                Some(oca_bundle_str) => {
+                    String::from_utf8(oca_bundle_str).map_err(|e| e.to_string())?
+                }
                 None => return Err("OCA not found".to_string()),
             };
-            let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str).unwrap();
+            let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str)
+                .map_err(|e| format!("Failed to parse oca bundle: {}", e))?;
             base = Some(oca_b.into());
         } else {
             let result = oca_bundle_semantics::build::apply_command(base.clone(), command.clone());
-            let mut oca_box: OCABox = OCABox::new();
-            match result {
-                Ok(oca) => {
-                    oca_box = oca;
-                }
-                Err(errors) => {
-                    println!("{:?}", errors);
-                }
+            let mut oca_box: OCABox = match result {
+                Ok(oca) => oca,
+                Err(errors) => return Err(errors.join(", ")),
             };
             let oca_bundle = oca_box.generate_bundle();
             let command_str = serde_json::to_string(&command).unwrap();
@@ -50,12 +48,13 @@ pub fn build_oca(
                     input.push(0);
                 }
             }
-            input.push(command_str.len().try_into().unwrap());
+            // The rest of the record, of any length
             input.extend(command_str.as_bytes());
-            db.insert(
-                &format!("oca.{}.operation", oca_bundle.clone().said.unwrap()),
-                &input,
-            )?;
+            let operation_key = format!("oca.{}.operation", oca_bundle.clone().said.unwrap());
+            // The bundle keeps the operation it was first reached by: a later one may
+            // start from the bundle itself, which would close the history into a cycle
+            let operation = db.get(&operation_key)?.unwrap_or(input);
+            db.insert(&operation_key, &operation)?;
             let code = HashFunctionCode::Blake3_256;
             let format = SerializationFormats::JSON;
             db.insert(
@@ -67,7 +66,10 @@ pub fn build_oca(
         }
     }
 
-    Ok(base.unwrap().generate_bundle())
+    match base {
+        Some(mut base) => Ok(base.generate_bundle()),
+        None => Err("No commands to build from".to_string()),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 03ab135a094fa13259230a25f96025e722f1549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 27/31] fix: validate conditions of a damaged bundle without
 panicking

---
 semantics/oca-bundle/src/state/validator.rs | 75 +++++++++++++--------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index ba94b05..8ef9a7b 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -231,7 +231,12 @@ impl Validator {
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for &attr in overlay.attributes().iter() {
             let condition = conditions.get(attr).unwrap(); // todo
-            let condition_dependencies = dependencies.get(attr).unwrap(); // todo
+            let Some(condition_dependencies) = dependencies.get(attr) else {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has invalid condition: missing dependencies"
+                )));
+                continue;
+            };
             if condition_dependencies.contains(attr) {
                 errors.push(Error::Custom(format!(
                     "Attribute '{attr}' cannot be a dependency of itself"
@@ -240,32 +245,30 @@ impl Validator {
             }
 
             let mut attr_mocks: HashMap<String, String> = HashMap::new();
-            condition_dependencies.iter().for_each(|dep| {
-                let dep_type = attr_types.get(dep).unwrap(); // todo
-                let value = match dep_type {
-                    NestedAttrType::Null => "null".to_string(),
-                    NestedAttrType::Value(base_type) => match base_type {
-                        AttributeType::Text => "'test'".to_string(),
-                        AttributeType::Numeric => "0".to_string(),
-                        AttributeType::DateTime => "'2020-01-01'".to_string(),
-                        AttributeType::Binary => "test".to_string(),
-                        AttributeType::Boolean => "true".to_string(),
-                    },
-                    // TODO validate nested objects
-                    NestedAttrType::Array(boxed_type) => match **boxed_type {
-                        NestedAttrType::Value(base_type) => match base_type {
-                            AttributeType::Text => "['test']".to_string(),
-                            AttributeType::Numeric => "[0]".to_string(),
-                            AttributeType::DateTime => "['2020-01-01']".to_string(),
-                            AttributeType::Binary => "[test]".to_string(),
-                            AttributeType::Boolean => "[true]".to_string(),
-                        },
-                        _ => panic!("Invalid or not supported array type"),
-                    },
-                    NestedAttrType::Reference(ref_value) => ref_value.to_string(),
-                };
-                attr_mocks.insert(dep.to_string(), value);
+            for dep in condition_dependencies {
+                if let Some(dep_type) = attr_types.get(dep) {
+                    attr_mocks.insert(dep.to_string(), Self::mock_value(dep_type));
+                }
+            }
+
+            // Every dependency the condition refers to has to be an attribute
+            let undefined = re.captures_iter(condition).find_map(|caps| {
+                match caps[1]
+                    .parse::<usize>()
+                    .ok()
+                    .and_then(|i| condition_dependencies.get(i))
+                {
+                    Some(dep) if attr_mocks.contains_key(dep) => None,
+                    Some(dep) => Some(dep.clone()),
+                    None => Some(caps[0].to_string()),
+                }
             });
+            if let Some(undefined) = undefined {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has invalid condition: undefined dependency '{undefined}'"
+                )));
+                continue;
+            }
 
             let script = re
                 .replace_all(condition, |caps: &regex::Captures| {
@@ -289,14 +292,14 @@ impl Validator {
                     if let Err(e) = lua.run_thread::<bool>(&thread) {
                         errors.push(Error::Custom(format!(
                             "Attribute '{attr}' has invalid condition: {}",
-                            e.source().unwrap()
+                            e.source().map_or(e.to_string(), |s| s.to_string())
                         )));
                     }
                 }
                 Err(e) => {
                     errors.push(Error::Custom(format!(
                         "Attribute '{attr}' has invalid condition: {}",
-                        e.source().unwrap()
+                        e.source().map_or(e.to_string(), |s| s.to_string())
                     )));
                 }
             }
@@ -309,6 +312,22 @@ impl Validator {
         }
     }
 
+    fn mock_value(attr_type: &NestedAttrType) -> String {
+        match attr_type {
+            NestedAttrType::Null => "null".to_string(),
+            NestedAttrType::Value(base_type) => match base_type {
+                AttributeType::Text => "'test'".to_string(),
+                AttributeType::Numeric => "0".to_string(),
+                AttributeType::DateTime => "'2020-01-01'".to_string(),
+                AttributeType::Binary => "test".to_string(),
+                AttributeType::Boolean => "true".to_string(),
+            },
+            // TODO validate nested objects
+            NestedAttrType::Array(boxed_type) => format!("[{}]", Self::mock_value(boxed_type)),
+            NestedAttrType::Reference(ref_value) => ref_value.to_string(),
+        }
+    }
+
     fn validate_meta(
         &self,
         enforced_langs: &HashSet<&Language>,
-- 
2.43.0


From 75818600ad62f761b9a6cfa37bea87934c697d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 28/31] fix: refuse an array type without an element type when
 a bundle is read

---
 semantics/oca-ast/src/ast/attributes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/ast/attributes.rs b/semantics/oca-ast/src/ast/attributes.rs
index ae49b7c..f7eac04 100644
--- a/semantics/oca-ast/src/ast/attributes.rs
+++ b/semantics/oca-ast/src/ast/attributes.rs
@@ -94,7 +94,10 @@ impl<'de> Deserialize<'de> for NestedAttrType {
                     }
                 }
             },
-            serde_json::Value::Array(arr) => NestedAttrTypeFrame::Array(arr[0].clone()).into(),
+            serde_json::Value::Array(arr) => match arr.first() {
+                Some(inner) => NestedAttrTypeFrame::Array(inner.clone()).into(),
+                None => AttributeError::ConvertingFailure("[]".to_string()).into(),
+            },
             value => {
                 AttributeError::ConvertingFailure(serde_json::to_string(&value).unwrap()).into()
             }
-- 
2.43.0


From b92a1ca87d42c34df3d23d40a851fa0052896ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 29/31] fix: refuse a transformation file without source or
 target instead of panicking

---
 .../transformation-file/src/build.rs          | 43 ++++++++++++-------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/transformation/transformation-file/src/build.rs b/transformation/transformation-file/src/build.rs
index 2d7ce1a..975e80c 100644
--- a/transformation/transformation-file/src/build.rs
+++ b/transformation/transformation-file/src/build.rs
@@ -26,21 +26,28 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
     let mut errors = vec![];
 
     let mut base: Option<Transformation> = None;
+    let default_command_meta = ast::CommandMeta {
+        line_number: 0,
+        raw_line: "unknown".to_string(),
+    };
+    let error = |message: &str| Error::FromASTError {
+        line_number: default_command_meta.line_number,
+        raw_line: default_command_meta.raw_line.clone(),
+        message: message.to_string(),
+    };
     if !ast.meta.is_empty() {
-        let source = ast.meta.get("source").expect("missing source meta");
-        let source_said = source.replace("refs:", "");
-        let target = ast.meta.get("target").expect("missing target meta");
-        let target_said = target.replace("refs:", "");
         let mut transformation = Transformation::new();
-        transformation.set_source(source_said);
-        transformation.set_target(target_said);
+        match ast.meta.get("source") {
+            Some(source) => transformation.set_source(source.replace("refs:", "")),
+            None => errors.push(error("missing source meta")),
+        }
+        match ast.meta.get("target") {
+            Some(target) => transformation.set_target(target.replace("refs:", "")),
+            None => errors.push(error("missing target meta")),
+        }
         base = Some(transformation)
     }
 
-    let default_command_meta = ast::CommandMeta {
-        line_number: 0,
-        raw_line: "unknown".to_string(),
-    };
     for (i, command) in ast.commands.iter().enumerate() {
         let command_index = i;
         // todo pass the references
@@ -61,12 +68,16 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
             }
         }
     }
-    if errors.is_empty() {
-        let mut transformation = base.unwrap().clone();
-        transformation.fill_said();
-        Ok(transformation)
-    } else {
-        Err(errors)
+    if base.is_none() && errors.is_empty() {
+        errors.push(error("missing meta and commands"));
+    }
+
+    match base {
+        Some(mut transformation) if errors.is_empty() => {
+            transformation.fill_said();
+            Ok(transformation)
+        }
+        _ => Err(errors),
     }
 }
 
-- 
2.43.0


From b45c8848a4e4107ded1e8d5e726b5c0f6455650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 30/31] fix: sync the search directory when a build finds its
 rows already there

A commit whose final directory sync failed reports an error but is visible. The
retried build inserts nothing, so nothing made that commit last, and a power loss
rolled back the rows of an acknowledged build.
---
 oca/src/facade/build.rs |  7 ++++++-
 oca/src/facade/mod.rs   | 17 ++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index c9404b7..a471a2b 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -157,7 +157,12 @@ impl Facade {
 
         self.build_cache(&oca_build.oca_bundle)?;
 
-        self.build_meta(&oca_build.oca_bundle)
+        self.build_meta(&oca_build.oca_bundle)?;
+
+        // Rows which were there already may stem from a commit that failed to do this
+        self.connection()
+            .sync_directory()
+            .map_err(|e| e.to_string())
     }
 
     pub fn build_from_ocafile(&mut self, ocafile: String) -> Result<OCABundle, Error> {
diff --git a/oca/src/facade/mod.rs b/oca/src/facade/mod.rs
index 7a04a73..161d1cf 100644
--- a/oca/src/facade/mod.rs
+++ b/oca/src/facade/mod.rs
@@ -23,14 +23,21 @@ impl Connection {
         let conn = rusqlite::Connection::open(path).unwrap();
         // Without syncing the directory a commit may be rolled back after a power loss
         conn.pragma_update(None, "synchronous", "EXTRA").unwrap();
+        let connection = Self {
+            connection: Arc::new(Mutex::new(conn)),
+        };
         // The commits of a process which died before syncing it are seen, so they must last
+        connection.sync_directory().unwrap();
+        connection
+    }
+
+    /// Makes the end of every commit seen so far last, also of one which could not do so itself.
+    pub(crate) fn sync_directory(&self) -> std::io::Result<()> {
         #[cfg(unix)]
-        if let Some(dir) = conn.path().and_then(|path| Path::new(path).parent()) {
-            std::fs::File::open(dir).unwrap().sync_all().unwrap();
-        }
-        Self {
-            connection: Arc::new(Mutex::new(conn)),
+        if let Some(dir) = self.lock().path().and_then(|path| Path::new(path).parent()) {
+            std::fs::File::open(dir)?.sync_all()?;
         }
+        Ok(())
     }
 
     pub fn execute<P>(&self, sql: &str, params: P) -> rusqlite::Result<usize>
-- 
2.43.0


From 055ff9474a75dfa3fb73872d85c2c116c37d4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:40 +0000
Subject: [PATCH 31/31] fix: read and list each dependency once

---
 oca/src/facade/fetch.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 05d852b..bf7db27 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -18,7 +18,7 @@ use said::{
 
 use serde::Serialize;
 use std::borrow::Borrow;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::str::FromStr;
 
 #[derive(Debug, Serialize)]
@@ -419,10 +419,18 @@ pub fn get_oca_bundle(
         Ok(oca_bundle) => {
             let mut dep_bundles = vec![];
             if with_dep {
-                for refs in retrive_all_references(oca_bundle.clone()) {
-                    let dep_bundle = get_oca_bundle(storage, refs, true)?;
+                // Each dependency once, as the ways that lead to it can be countless
+                let mut seen = HashSet::from([said.to_string()]);
+                let mut pending = retrive_all_references(oca_bundle.clone());
+                pending.reverse();
+                while let Some(refs) = pending.pop() {
+                    if !seen.insert(refs.to_string()) {
+                        continue;
+                    }
+                    let dep_bundle = get_oca_bundle(storage, refs, false)?;
+                    let references = retrive_all_references(dep_bundle.bundle.clone());
+                    pending.extend(references.into_iter().rev());
                     dep_bundles.push(dep_bundle.bundle);
-                    dep_bundles.extend(dep_bundle.dependencies);
                 }
             }
             let result = BundleWithDependencies {
-- 
2.43.0

