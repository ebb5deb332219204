From dbff0ee4a0e744b0e2375d082cefb38cc31a17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 01/28] fix: don't let a package's in-flight dependency shadow
 the one its descendants were wired to

---
 crates/node-maintainer/src/resolver.rs | 28 +++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 49cad17..65ac6cf 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -284,6 +284,7 @@ impl<'a> Resolver<'a> {
                 .package
                 .resolved()
                 .satisfies(&dep.spec)?
+                && !Self::may_be_shadowed(graph, dep, satisfier_idx)?
             {
                 let edge_idx = graph.inner.add_edge(
                     dep.node_idx,
@@ -300,6 +301,29 @@ impl<'a> Resolver<'a> {
         Ok(None)
     }
 
+    /// Whether some package between the dependent and the place where
+    /// `satisfier_idx` lives needs a _different_ version of it. That package's
+    /// own request may still be in flight, and its copy will end up in front
+    /// of `satisfier_idx` once it's placed.
+    fn may_be_shadowed(
+        graph: &Graph,
+        dep: &NodeDependency,
+        satisfier_idx: NodeIndex,
+    ) -> Result<bool, NodeMaintainerError> {
+        let holder_idx = graph[satisfier_idx].parent;
+        for node in graph.node_parent_iter(dep.node_idx) {
+            if Some(node.idx) == holder_idx {
+                break;
+            }
+            if let Some((req, _)) = node.dependency_reqs.get(&dep.name) {
+                if !graph[satisfier_idx].package.resolved().satisfies(req)? {
+                    return Ok(true);
+                }
+            }
+        }
+        Ok(false)
+    }
+
     async fn satisfy_from_lockfile(
         &self,
         graph: &Graph,
@@ -382,9 +406,7 @@ impl<'a> Resolver<'a> {
                         .inner
                         .edge_endpoints(edge_ref.id())
                         .expect("Where did the edge go?!?!");
-                    if graph.is_ancestor(curr_target_idx, from)
-                        && !graph[resolved].package.resolved().satisfies(requested)?
-                    {
+                    if graph.is_ancestor(curr_target_idx, from) {
                         break 'outer;
                     }
                 }
-- 
2.43.0


From ee1a18bec7ce80601c60c147f5eee6222a8b5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 02/28] fix: --locked compares lockfiles by their serialized
 form

---
 crates/node-maintainer/src/resolver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 65ac6cf..7210b7f 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -260,7 +260,9 @@ impl<'a> Resolver<'a> {
 
         if self.locked {
             if let Some(lockfile) = lockfile {
-                if lockfile != self.graph.to_lockfile()? {
+                // Compare what would actually be written out: the in-memory
+                // representations carry details that are never serialized.
+                if lockfile.to_kdl().to_string() != self.graph.to_kdl()?.to_string() {
                     return Err(NodeMaintainerError::LockfileMismatch);
                 }
             }
-- 
2.43.0


From e295d16c27d4cec3cc8e67f183a8440ab72a909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 03/28] fix: decode a package's SHA-1 shasum as hex

dist.shasum is a hex digest; parsing it as the base64 payload of an SRI string
made every package that only has a shasum fail its integrity check.
---
 crates/nassun/src/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 87ec99f..e4c330b 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -269,7 +269,7 @@ impl PackageResolver {
                             v.dist
                                 .shasum
                                 .as_ref()
-                                .map(|s| format!("sha1-{}", s).parse())
+                                .map(|s| Integrity::from_hex(s, ssri::Algorithm::Sha1))
                         })
                         .transpose()?,
                 })
-- 
2.43.0


From a1a794813dfcbff9055f79ecda0e53a04941f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 04/28] fix: extract files with long names under their full
 path

Names over 100 bytes are stored in a GNU long-name record or a pax header;
reading only the plain header truncated them.
---
 crates/nassun/src/tarball.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 35472b0..18bcd66 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -243,8 +243,8 @@ impl TempTarball {
             })?;
             let header = file.header();
             let mode = header.mode().unwrap_or(0o644) | 0o600;
-            let entry_path = header.path().map_err(|e| {
-                NassunError::ExtractIoError(e, None, "reading path from entry header.".into())
+            let entry_path = file.path().map_err(|e| {
+                NassunError::ExtractIoError(e, None, "reading path from entry.".into())
             })?;
             let entry_subpath = strip_one(&entry_path)
                 .unwrap_or_else(|| entry_path.as_ref())
-- 
2.43.0


From 87c1361ad775177d436c690f4388371f36e937c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 05/28] fix: never extract an archive entry outside the
 destination

Entries whose path still has parent-directory components after the first
component is removed are skipped; a cache index naming such a path is treated
as corrupt.
---
 crates/nassun/src/package.rs |  5 +++++
 crates/nassun/src/tarball.rs | 11 +++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index bffe46d..ad394a8 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -288,6 +288,11 @@ impl Package {
                 extract_mode
             };
             for (archived_path, (sri, mode)) in index.files.iter() {
+                if !crate::tarball::stays_inside(Path::new(&archived_path[..])) {
+                    return Err(NassunError::DeserializeCacheError(format!(
+                        "entry outside of the package: {archived_path}"
+                    )));
+                }
                 let sri: Integrity = sri.parse()?;
                 let path = dir.join(&archived_path[..]);
                 let parent = PathBuf::from(path.parent().expect("this will always have a parent"));
diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 18bcd66..e71adb2 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 #[cfg(not(target_arch = "wasm32"))]
 use std::io::{Read, Seek};
 #[cfg(not(target_arch = "wasm32"))]
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::pin::Pin;
 use std::task::{Context, Poll};
 #[cfg(not(target_arch = "wasm32"))]
@@ -250,7 +250,7 @@ impl TempTarball {
                 .unwrap_or_else(|| entry_path.as_ref())
                 .to_path_buf();
             let path = dir.join(&entry_subpath);
-            if let tar::EntryType::Regular = header.entry_type() {
+            if header.entry_type() == tar::EntryType::Regular && stays_inside(&entry_subpath) {
                 let parent = path.parent().unwrap();
                 mkdirp(parent, &created)?;
 
@@ -424,6 +424,13 @@ fn strip_one(path: &Path) -> Option<&Path> {
     comps.next().map(|_| comps.as_path())
 }
 
+/// Whether joining `path` to a directory gives a path inside that directory.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn stays_inside(path: &Path) -> bool {
+    path.components()
+        .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn tarball_key(integrity: &Integrity) -> String {
     format!("nassun::package::{integrity}")
-- 
2.43.0


From f34c6dce969b6e14dc50eafe544e82aa9eda2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 06/28] fix: keep a manifest's bin paths inside its package

normalize() turned bin paths absolute with Path::join, which leaves `..`
components in place, so a package could have files outside of it made
executable and linked. directories.bin was read relative to the current
directory instead of the package, failing the install of any package using
it, and a bin missing from the tarball failed extraction through the cache.
---
 crates/nassun/src/tarball.rs            |  5 ++-
 crates/oro-common/src/build_manifest.rs | 55 +++++++++++++++----------
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index e71adb2..b5e9811 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -351,8 +351,11 @@ impl TempTarball {
                 tarball_index
                     .bin_paths
                     .push(binpath.to_string_lossy().to_string());
+                // The manifest may well list bins that aren't in the tarball.
                 #[cfg(unix)]
-                set_bin_mode(&dir.join(binpath))?;
+                if dir.join(binpath).exists() {
+                    set_bin_mode(&dir.join(binpath))?;
+                }
             }
         }
 
diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index 27d0800..9df6829 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::HashMap,
     ffi::OsStr,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use serde::{Deserialize, Serialize};
@@ -47,7 +47,7 @@ impl BuildManifest {
         let path = path.as_ref();
         let pkg_str = std::fs::read_to_string(path)?;
         let raw: RawBuildManifest = serde_json::from_str(&pkg_str)?;
-        Self::normalize(raw)
+        Self::normalize(raw, path.parent().unwrap_or_else(|| Path::new("")))
     }
 
     /// Create a new [`BuildManifest`] from an already fully loaded [`Manifest`],
@@ -61,10 +61,10 @@ impl BuildManifest {
             directories: manifest.directories.clone(),
             scripts: manifest.scripts.clone(),
         };
-        Self::normalize(raw)
+        Self::normalize(raw, Path::new(""))
     }
 
-    fn normalize(raw: RawBuildManifest) -> std::io::Result<Self> {
+    fn normalize(raw: RawBuildManifest, base: &Path) -> std::io::Result<Self> {
         let mut bin_map = HashMap::new();
         if let Some(Bin::Hash(bins)) = raw.bin {
             for (name, bin) in bins {
@@ -93,14 +93,18 @@ impl BuildManifest {
             bin: Some(bin_dir), ..
         }) = raw.directories
         {
-            for entry in WalkDir::new(bin_dir) {
-                let entry = entry?;
-                let path = entry.path();
-                if path.starts_with(".") {
-                    continue;
-                }
-                if let Some(file_name) = path.file_name() {
-                    bin_map.insert(file_name.to_string_lossy().to_string(), path.into());
+            let bin_dir = inside_package(&bin_dir);
+            // The directory might be missing, or not extracted yet.
+            if bin_dir != Path::new("") && base.join(&bin_dir).is_dir() {
+                for entry in WalkDir::new(base.join(&bin_dir)) {
+                    let entry = entry?;
+                    let file_name = entry.file_name().to_string_lossy().to_string();
+                    if !entry.file_type().is_file() || file_name.starts_with('.') {
+                        continue;
+                    }
+                    if let Ok(path) = entry.path().strip_prefix(base) {
+                        bin_map.insert(file_name, path.into());
+                    }
                 }
             }
         };
@@ -133,16 +137,7 @@ impl BuildManifest {
 
             let base = base.unwrap();
 
-            let bin_target = Path::new("/")
-                .join(bin.to_string_lossy().to_string())
-                .strip_prefix(
-                    #[cfg(windows)]
-                    "\\",
-                    #[cfg(not(windows))]
-                    "/",
-                )
-                .expect("We added this ourselves")
-                .to_path_buf();
+            let bin_target = inside_package(bin);
             if bin_target == Path::new("") {
                 continue;
             }
@@ -155,3 +150,19 @@ impl BuildManifest {
         })
     }
 }
+
+/// Resolves a path from a manifest against the root of its package, which
+/// neither an absolute path nor any amount of `..` can lead out of.
+fn inside_package(path: &Path) -> PathBuf {
+    let mut inside = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::Normal(part) => inside.push(part),
+            Component::ParentDir => {
+                inside.pop();
+            }
+            _ => {}
+        }
+    }
+    inside
+}
-- 
2.43.0


From f35c04e6bd385e2f47fa5c7614c4874a5270651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 07/28] fix: link isolated bins from their package's directory

The path was built from the bin's name, so only bins called the same as
their package were ever linked. Also, don't fail to create a directory that's
there already, but wasn't when it was last looked for.
---
 crates/node-maintainer/src/linkers/isolated.rs |  8 ++++++--
 crates/node-maintainer/src/linkers/mod.rs      | 15 +++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index c184769..934ad11 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -569,10 +569,11 @@ impl IsolatedLinker {
             return Ok(0);
         }
         let mut linked = 0;
+        let pkg_name = graph[node].name.to_string();
         let node_path = store_ref
             .join(package_dir_name(graph, node))
             .join("node_modules")
-            .join(&graph[node].name.to_string());
+            .join(&pkg_name);
         let build_mani = BuildManifest::from_path(node_path.join("package.json")).map_err(|e| {
             NodeMaintainerError::BuildManifestReadError(node_path.join("package.json"), e)
         })?;
@@ -589,7 +590,10 @@ impl IsolatedLinker {
             let dep_bin_dir = dep_store_dir.join("node_modules").join(".bin");
             for (name, path) in &build_mani.bin {
                 let to = dep_bin_dir.join(name);
-                let from = dep_store_dir.join("node_modules").join(name).join(path);
+                let from = dep_store_dir
+                    .join("node_modules")
+                    .join(&pkg_name)
+                    .join(path);
                 let name = name.clone();
                 let mkdir_cache = self.mkdir_cache.clone();
                 async_std::task::spawn_blocking(move || {
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index e6b52b4..2aa1891 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -491,12 +491,15 @@ pub(crate) fn mkdirp(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).io_context(|| {
-                format!(
-                    "Failed to create directory {} while extracting.",
-                    path.display()
-                )
-            })?;
+            std::fs::create_dir(path)
+                // Someone else might have created it in the meantime.
+                .or_else(|e| if path.is_dir() { Ok(()) } else { Err(e) })
+                .io_context(|| {
+                    format!(
+                        "Failed to create directory {} while extracting.",
+                        path.display()
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).io_context(|| {
-- 
2.43.0


From ad40259c6ab519b9fbec49d2e73c98f25cf70365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 08/28] fix: link every package's bins, not just newly
 extracted ones'

The hoisted linker clears node_modules/.bin and then only linked what it had
just extracted, so applying twice left no bins. The isolated linker likewise
missed packages that were extracted already but have a new dependent. Bins of
the same name no longer race each other, either.
---
 crates/node-maintainer/src/linkers/hoisted.rs  |  8 ++++++--
 crates/node-maintainer/src/linkers/isolated.rs | 13 ++-----------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 619c21b..722a177 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -373,7 +373,10 @@ impl HoistedLinker {
                 async_std::fs::remove_dir_all(entry.path()).await.io_context(|| format!("Failed to remove directory at {} while clearing out existing node_modules/.bin directories.", entry.path().display()))?;
             }
         }
-        futures::stream::iter(self.pending_rebuild.lock().await.iter().copied())
+        // Packages might share a bin directory, and bin names.
+        let link_lock = Arc::new(std::sync::Mutex::new(()));
+        let link_lock_ref = &link_lock;
+        futures::stream::iter(graph.inner.node_indices())
             .map(|idx| Ok((idx, linked.clone())))
             .try_for_each_concurrent(self.opts.concurrency, move |(idx, linked)| async move {
                 if idx == graph.root {
@@ -409,12 +412,13 @@ impl HoistedLinker {
                     let from = package_dir.join(path);
                     let name = name.clone();
                     let mkdir_cache = self.mkdir_cache.clone();
+                    let link_lock = link_lock_ref.clone();
                     async_std::task::spawn_blocking(move || {
+                        let _lock = link_lock.lock();
                         // We only create a symlink if the target bin exists.
                         let target_dir = &target_dir;
                         if from.symlink_metadata().is_ok() {
                             super::mkdirp(target_dir, &mkdir_cache)?;
-                            // TODO: use a DashMap here to prevent race conditions, maybe?
                             if let Ok(meta) = to.symlink_metadata() {
                                 if meta.is_dir() {
                                     std::fs::remove_dir_all(&to).io_context(|| {
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 934ad11..3a1a2dd 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BinaryHeap, HashMap, HashSet},
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     sync::{
         atomic::{self, AtomicUsize},
@@ -20,7 +20,6 @@ use super::LinkerOptions;
 
 pub(crate) struct IsolatedLinker {
     pub(crate) pending_rebuild: Arc<Mutex<HashSet<NodeIndex>>>,
-    pub(crate) pending_bin_link: Arc<Mutex<BinaryHeap<NodeIndex>>>,
     pub(crate) mkdir_cache: Arc<DashSet<PathBuf>>,
     pub(crate) opts: LinkerOptions,
 }
@@ -29,7 +28,6 @@ impl IsolatedLinker {
     pub fn new(opts: LinkerOptions) -> Self {
         Self {
             pending_rebuild: Arc::new(Mutex::new(HashSet::new())),
-            pending_bin_link: Arc::new(Mutex::new(BinaryHeap::new())),
             mkdir_cache: Arc::new(DashSet::new()),
             opts,
         }
@@ -345,7 +343,6 @@ impl IsolatedLinker {
         let stream = futures::stream::iter(graph.inner.node_indices());
         let concurrent_count = Arc::new(AtomicUsize::new(0));
         let pending_rebuild = self.pending_rebuild.clone();
-        let pending_bin_link = self.pending_bin_link.clone();
         let actually_extracted = Arc::new(AtomicUsize::new(0));
         let total = graph.inner.node_count();
         let total_completed = Arc::new(AtomicUsize::new(0));
@@ -372,7 +369,6 @@ impl IsolatedLinker {
                     total_completed.clone(),
                     actually_extracted.clone(),
                     pending_rebuild.clone(),
-                    pending_bin_link.clone(),
                 ))
             })
             .try_for_each_concurrent(
@@ -383,7 +379,6 @@ impl IsolatedLinker {
                     total_completed,
                     actually_extracted,
                     pending_rebuild,
-                    pending_bin_link,
                 )| async move {
                     if child_idx == graph.root {
                         self.link_deps(graph, child_idx, store_ref, &root.join("node_modules"))
@@ -427,9 +422,6 @@ impl IsolatedLinker {
                         {
                             pending_rebuild.lock().await.insert(child_idx);
                         }
-                        if !build_mani.bin.is_empty() {
-                            pending_bin_link.lock().await.push(child_idx);
-                        }
                     }
 
                     self.link_deps(
@@ -482,8 +474,7 @@ impl IsolatedLinker {
         let store_ref = &store;
         let mut linked = 0;
 
-        let mut pending = self.pending_bin_link.lock().await;
-        while let Some(idx) = pending.pop() {
+        for idx in graph.inner.node_indices() {
             let added = self.link_dep_bins(graph, idx, root, store_ref).await?;
             linked += added;
         }
-- 
2.43.0


From 3bb532381a9a64d735e3bf5869dac06d92c38ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 09/28] fix: prune what's outdated, not just what's at an
 unknown path

The isolated linker kept any store directory whose path in the tree still
exists, whatever version was in it, so a dependency was never updated once
installed, and left links to removed or moved dependencies behind. The hoisted
linker never looked at scoped packages, nor inside of packages it kept.
---
 crates/node-maintainer/src/linkers/hoisted.rs | 109 ++++++++----------
 .../node-maintainer/src/linkers/isolated.rs   |  99 +++++++++++-----
 2 files changed, 117 insertions(+), 91 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 722a177..941b75f 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -1,6 +1,6 @@
 use std::collections::HashSet;
 use std::ffi::OsStr;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::atomic::AtomicUsize;
 use std::sync::{atomic, Arc};
 
@@ -108,7 +108,6 @@ impl HoistedLinker {
         let bin_osstr = Some(std::ffi::OsStr::new(".bin"));
         let meta = prefix.join(META_FILE_NAME);
         let mut extraneous_packages = 0;
-        let extraneous = &mut extraneous_packages;
 
         for entry in WalkDir::new(&prefix)
             .into_iter()
@@ -131,71 +130,55 @@ impl HoistedLinker {
                     return false;
                 }
 
-                if file_name
-                    .expect("this should have a file name")
-                    .to_string_lossy()
-                    .starts_with('@')
-                {
-                    // Let scoped packages through.
-                    return true;
-                }
-
-                // See if we're looking at a package dir, presumably (or a straggler file).
-                if entry_path
-                    .parent()
-                    .expect("this must have a parent")
-                    .file_name()
-                    == nm_osstr
-                {
-                    let entry_subpath_path = entry_path
-                        .strip_prefix(&prefix)
-                        .expect("this should definitely be under the prefix");
-                    let entry_subpath =
-                        UniCase::from(entry_subpath_path.to_string_lossy().replace('\\', "/"));
-
-                    let actual = self
-                        .opts
-                        .actual_tree
-                        .as_ref()
-                        .and_then(|tree| tree.packages.get(&entry_subpath));
-                    let ideal = graph
-                        .node_at_path(entry_subpath_path)
-                        .and_then(|node| graph.node_lockfile_node(node.idx, false).ok());
-                    // If the package is not in the actual tree, or it doesn't
-                    // match up with what the ideal tree wants, it's
-                    // extraneous. We want to return true for those so we
-                    // delete them later.
-                    if ideal.is_some()
-                        && self
-                            .opts
-                            .actual_tree
-                            .as_ref()
-                            .map(|tree| tree.packages.contains_key(&entry_subpath))
-                            .unwrap_or(false)
-                        && actual == ideal.as_ref()
-                    {
-                        return false;
-                    } else {
-                        *extraneous += 1;
-                        return true;
-                    }
-                }
-
-                // We're not interested in any other files than the package dirs themselves.
-                false
+                // See if we're looking at a scope or a package dir, presumably
+                // (or a straggler file). We're not interested in any other
+                // files than those.
+                let parent = entry_path.parent().expect("this must have a parent");
+                parent.file_name() == nm_osstr
+                    || (is_scope(parent)
+                        && parent.parent().and_then(|parent| parent.file_name()) == nm_osstr)
             })
         {
             let entry = entry?;
             let entry_path = entry.path();
             let file_name = entry_path.file_name();
-            if file_name == nm_osstr
-                || file_name == bin_osstr
-                || file_name
-                    .map(|s| s.to_string_lossy().starts_with('@'))
-                    .unwrap_or(false)
+            if file_name == nm_osstr || file_name == bin_osstr || is_scope(entry_path) {
+                continue;
+            }
+
+            let entry_subpath_path = entry_path
+                .strip_prefix(&prefix)
+                .expect("this should definitely be under the prefix");
+            let entry_subpath =
+                UniCase::from(entry_subpath_path.to_string_lossy().replace('\\', "/"));
+
+            let actual = self
+                .opts
+                .actual_tree
+                .as_ref()
+                .and_then(|tree| tree.packages.get(&entry_subpath));
+            let ideal = graph
+                .node_at_path(entry_subpath_path)
+                .map(|node| node.idx)
+                .filter(|idx| UniCase::new(graph.node_path_string(*idx)) == entry_subpath)
+                .and_then(|idx| graph.node_lockfile_node(idx, false).ok());
+            // If the package is not in the actual tree, or it doesn't
+            // match up with what the ideal tree wants, it's extraneous.
+            if ideal.is_some() && actual == ideal.as_ref() {
+                continue;
+            }
+            // Anything inside another package that neither tree knows about
+            // is that package's own (a bundled dependency, for example).
+            if ideal.is_none()
+                && actual.is_none()
+                && entry_subpath_path.components().any(|c| Some(c.as_os_str()) == nm_osstr)
             {
                 continue;
-            } else if entry.file_type().is_dir() {
+            }
+
+            extraneous_packages += 1;
+
+            if entry.file_type().is_dir() {
                 if let Some(pb) = &self.opts.on_prune_progress {
                     pb(entry_path);
                 }
@@ -471,3 +454,9 @@ impl HoistedLinker {
         )
     }
 }
+
+fn is_scope(path: &Path) -> bool {
+    path.file_name()
+        .map(|name| name.to_string_lossy().starts_with('@'))
+        .unwrap_or(false)
+}
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 3a1a2dd..10e1ead 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -13,6 +13,7 @@ use nassun::ExtractMode;
 use oro_common::BuildManifest;
 use petgraph::{stable_graph::NodeIndex, visit::EdgeRef, Direction};
 use ssri::Integrity;
+use unicase::UniCase;
 
 use crate::{error::IoContext, graph::Graph, NodeMaintainerError, META_FILE_NAME, STORE_DIR_NAME};
 
@@ -102,12 +103,20 @@ impl IsolatedLinker {
 
         let expected_mut = &mut expected;
         let store_ref = &store;
+        let actual_tree_ref = self.opts.actual_tree.as_ref();
         // Clean out individual node_modules within
         let indices = graph.inner.node_indices().map(move |idx| {
             if idx != graph.root {
                 let pkg_store_dir = store_ref.join(package_dir_name(graph, idx));
 
-                expected_mut.insert(pkg_store_dir);
+                // A store directory only says where its package goes in the
+                // tree, so make sure it's the same package, too.
+                let actual = actual_tree_ref
+                    .and_then(|tree| tree.packages.get(&UniCase::new(graph.node_path_string(idx))));
+                let ideal = graph.node_lockfile_node(idx, false).ok();
+                if ideal.is_some() && actual == ideal.as_ref() {
+                    expected_mut.insert(pkg_store_dir);
+                }
             }
             idx
         });
@@ -127,50 +136,56 @@ impl IsolatedLinker {
                         .join(pkg.name())
                         .join("node_modules")
                 };
-                let pkg_nm_ref = &pkg_nm;
 
                 let mut expected_deps = HashMap::new();
 
                 for edge in graph.inner.edges_directed(idx, Direction::Outgoing) {
                     let dep_pkg = &graph[edge.target()].package;
-                    let dep_store_dir = async_std::path::PathBuf::from(
-                        store_ref
-                            .join(package_dir_name(graph, edge.target()))
-                            .join("node_modules")
-                            .join(dep_pkg.name()),
+                    let dep_store_dir = store_ref
+                        .join(package_dir_name(graph, edge.target()))
+                        .join("node_modules")
+                        .join(dep_pkg.name());
+                    let dep_nm_entry = pkg_nm.join(dep_pkg.name());
+                    let relative = pathdiff::diff_paths(
+                        &dep_store_dir,
+                        dep_nm_entry.parent().expect("must have a parent"),
+                    )
+                    .expect("this should never fail");
+                    expected_deps.insert(
+                        async_std::path::PathBuf::from(dep_nm_entry),
+                        (
+                            async_std::path::PathBuf::from(relative),
+                            async_std::path::PathBuf::from(dep_store_dir),
+                        ),
                     );
-                    let dep_nm_entry = async_std::path::PathBuf::from(pkg_nm.join(dep_pkg.name()));
-                    expected_deps.insert(dep_nm_entry, dep_store_dir);
                 }
 
                 if async_std::path::Path::new(&pkg_nm).exists().await {
-                    let expected_ref = Arc::new(expected_deps);
-
-                    async_std::fs::read_dir(&pkg_nm)
-                        .await
-                        .io_context(|| {
+                    let mut dirs = vec![async_std::path::PathBuf::from(pkg_nm.clone())];
+                    while let Some(dir) = dirs.pop() {
+                        let mut entries = async_std::fs::read_dir(&dir).await.io_context(|| {
                             format!(
                                 "Failed to read contents of node_modules at {}.",
-                                pkg_nm.display()
+                                dir.display()
                             )
-                        })?
-                        .map(|e| Ok((e, expected_ref.clone())))
-                        .try_for_each(move |(entry, expected)| async move {
+                        })?;
+                        while let Some(entry) = entries.next().await {
                             let entry = entry.io_context(|| {
                                 format!(
                                     "Failed to read directory entry from prefix at {}.",
-                                    pkg_nm_ref.display()
+                                    dir.display()
                                 )
                             })?;
                             let path = entry.path();
-                            if let Some(target) = expected.get(&path) {
-                                let target = target.clone();
-                                let ty = entry.file_type().await.io_context(|| {
-                                    format!(
-                                        "Failed to get file type from entry at {}.",
-                                        entry.path().display()
-                                    )
-                                })?;
+                            let file_name = entry.file_name().to_string_lossy().to_string();
+                            let ty = entry.file_type().await.io_context(|| {
+                                format!(
+                                    "Failed to get file type from entry at {}.",
+                                    entry.path().display()
+                                )
+                            })?;
+                            #[allow(unused_variables)]
+                            if let Some((relative, target)) = expected_deps.get(&path) {
                                 if ty.is_file() {
                                     async_std::fs::remove_file(&path).await.io_context(|| {
                                         format!(
@@ -185,7 +200,7 @@ impl IsolatedLinker {
                                             path.display()
                                         )
                                     })?;
-                                } else if ty.is_symlink() && target != path.read_link().await.io_context(|| format!("Failed to read symlink at {} while pruning node_modules.", path.display()))? {
+                                } else if ty.is_symlink() && *relative != path.read_link().await.io_context(|| format!("Failed to read symlink at {} while pruning node_modules.", path.display()))? {
                                     if async_std::fs::remove_file(&path).await.is_err() {
                                         async_std::fs::remove_dir_all(&path).await.io_context(|| {
                                             format!(
@@ -198,6 +213,8 @@ impl IsolatedLinker {
                                     #[cfg(windows)]
                                     let path_clone = path.clone();
                                     #[cfg(windows)]
+                                    let target = target.clone();
+                                    #[cfg(windows)]
                                     if async_std::task::spawn_blocking(move || {
                                         Ok::<_, std::io::Error>(
                                             !junction::exists(&path_clone)?
@@ -220,10 +237,25 @@ impl IsolatedLinker {
                                         })?;
                                     }
                                 }
+                            } else if ty.is_dir() && file_name.starts_with('@') {
+                                dirs.push(path);
+                            } else if ty.is_symlink()
+                                || (idx == graph.root && !file_name.starts_with('.'))
+                            {
+                                // A link to something that's not a dependency
+                                // (anymore). The project's own node_modules
+                                // shouldn't have anything but links.
+                                if async_std::fs::remove_file(&path).await.is_err() {
+                                    async_std::fs::remove_dir_all(&path).await.io_context(|| {
+                                        format!(
+                                            "Failed to delete {} while pruning node_modules.",
+                                            path.display()
+                                        )
+                                    })?;
+                                }
                             }
-                            Ok::<_, NodeMaintainerError>(())
-                        })
-                        .await?;
+                        }
+                    }
                 }
 
                 Ok::<_, NodeMaintainerError>(())
@@ -474,6 +506,11 @@ impl IsolatedLinker {
         let store_ref = &store;
         let mut linked = 0;
 
+        let bin_dir = root.join("node_modules").join(".bin");
+        if bin_dir.symlink_metadata().is_ok() {
+            async_std::fs::remove_dir_all(&bin_dir).await.io_context(|| format!("Failed to remove directory at {} while clearing out the existing node_modules/.bin directory.", bin_dir.display()))?;
+        }
+
         for idx in graph.inner.node_indices() {
             let added = self.link_dep_bins(graph, idx, root, store_ref).await?;
             linked += added;
-- 
2.43.0


From 549c8e3ebf4591028dcfba7fe00f90e21dcd0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 10/28] fix: don't wait forever for packages that depend on
 each other

Packages in a dependency cycle waited for each other's lifecycle scripts to
run first, so the install never finished.
---
 crates/node-maintainer/src/linkers/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 2aa1891..1234e66 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -156,15 +156,20 @@ impl Linker {
             .iter()
             .copied()
             .collect::<Vec<_>>();
+        // Whether one package needs to wait for another. Packages that depend
+        // on each other, however indirectly, would wait forever, so they don't.
+        let waits_for = |idx: NodeIndex, dep: NodeIndex| {
+            idx != dep
+                && petgraph::algo::has_path_connecting(&graph.inner, idx, dep, None)
+                && !petgraph::algo::has_path_connecting(&graph.inner, dep, idx, None)
+        };
         // Map of package to the set of packages that need to run before it can run.
         let dependencies = pending
             .iter()
             .map(|idx| {
                 let mut deps = HashSet::new();
                 for dep in &pending {
-                    if dep != idx
-                        && petgraph::algo::has_path_connecting(&graph.inner, *idx, *dep, None)
-                    {
+                    if waits_for(*idx, *dep) {
                         deps.insert(*dep);
                     }
                 }
@@ -178,9 +183,7 @@ impl Linker {
                 .map(|idx| {
                     let mut deps = HashSet::new();
                     for dep in &pending {
-                        if dep != idx
-                            && petgraph::algo::has_path_connecting(&graph.inner, *dep, *idx, None)
-                        {
+                        if waits_for(*dep, *idx) {
                             deps.insert(*dep);
                         }
                     }
-- 
2.43.0


From c5a2fa86ec8222c8aeeb6647c1c8d39078c796d7 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 11/28] fix: send credentials only to their registry's own port
 and path

The middleware ignored the port and took a path that merely starts with the
registry's (/npm and /npm-other) for one below it; two registries on one host
shared their credentials.
---
 crates/oro-client/src/auth_middleware.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/oro-client/src/auth_middleware.rs b/crates/oro-client/src/auth_middleware.rs
index ea45336..6a519b9 100644
--- a/crates/oro-client/src/auth_middleware.rs
+++ b/crates/oro-client/src/auth_middleware.rs
@@ -33,7 +33,7 @@ impl Middleware for AuthMiddleware {
         // Don't add auth headers to requests to URLs outside the given
         // registry.
         let req_url = req.url().clone();
-        if reg.host_str() != req_url.host_str() || !req_url.path().starts_with(reg.path()) {
+        if !is_under(&req_url, &reg) {
             return next.run(req, extensions).await;
         }
 
@@ -86,6 +86,23 @@ where
     header
 }
 
+/// Whether `url` is on the registry's own host and port, at or below its path.
+fn is_under(url: &Url, registry: &Url) -> bool {
+    if url.host_str() != registry.host_str()
+        || url.port_or_known_default() != registry.port_or_known_default()
+    {
+        return false;
+    }
+    match url.path().strip_prefix(registry.path()) {
+        Some(rest) => rest.is_empty() || rest.starts_with('/') || registry.path().ends_with('/'),
+        None => false,
+    }
+}
+
 pub fn nerf_dart(url: &Url) -> String {
-    format!("//{}{}", url.host_str().unwrap_or(""), url.path())
+    let host = url.host_str().unwrap_or("");
+    match url.port() {
+        Some(port) => format!("//{host}:{port}{}", url.path()),
+        None => format!("//{host}{}", url.path()),
+    }
 }
-- 
2.43.0


From 0a933067048e7d970cba9c6d354c1669afae9c0b Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 12/28] fix: fetch tarballs with their registry's credentials

The tarball of a package was requested on behalf of the client's own registry
instead of the one configured for the package's scope, so private tarballs
were asked for without credentials.
---
 crates/nassun/src/fetch/npm.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/fetch/npm.rs b/crates/nassun/src/fetch/npm.rs
index f51c7d3..57f356d 100644
--- a/crates/nassun/src/fetch/npm.rs
+++ b/crates/nassun/src/fetch/npm.rs
@@ -156,7 +156,13 @@ impl PackageFetcher for NpmFetcher {
             PackageResolution::Npm { ref tarball, .. } => tarball,
             _ => panic!("How did a non-Npm resolution get here?"),
         };
-        Ok(self.client.stream_external(url).await?)
+        let client = match pkg.from().target() {
+            PackageSpec::Npm { ref scope, .. } => {
+                self.client.with_registry(self.pick_registry(scope))
+            }
+            _ => self.client.clone(),
+        };
+        Ok(client.stream_external(url).await?)
     }
 }
 
-- 
2.43.0


From a4e01122f098b0c7cd7779ea020e6a40386ba1f5 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 13/28] fix: read registry credentials as the kind they were
 stored as

Tokens were read as legacy auth and the other way round, a username without
password was not found, and a plain password was decoded as base64. Saving or
removing credentials also dropped entries whose name is not a full URL, and did
nothing when the auth node had no children yet.
---
 crates/oro-npm-account/src/config.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 82b6753..0a76296 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -1,4 +1,3 @@
-use base64::{engine::general_purpose, Engine as _};
 use kdl::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 use reqwest::header::HeaderValue;
 use url::Url;
@@ -22,8 +21,8 @@ pub fn set_credentials_by_uri(uri: &Url, credentials: &Credentials, config: &mut
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("auth").is_none() {
                 children.nodes_mut().push(KdlNode::new("auth"));
-                children.get_mut("auth").unwrap().ensure_children();
             }
+            children.get_mut("auth").unwrap().ensure_children();
         }
     }
 
@@ -114,20 +113,17 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
             let password = credentials.get("password");
 
             match (token, legacy_auth, username, password) {
-                (_, Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
-                (.., Some(username), Some(password)) => {
-                    let username = username.as_string()?;
-                    let password = password.as_string()?;
-                    let password = general_purpose::STANDARD.decode(password).ok()?;
-                    let password = String::from_utf8_lossy(&password).to_string();
-
-                    Some(Credentials::LegacyAuth(
-                        general_purpose::STANDARD.encode(format!("{username}:{password}")),
-                    ))
-                }
-                (Some(legacy_auth), ..) => {
+                (Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
+                (_, Some(legacy_auth), ..) => {
                     Some(Credentials::LegacyAuth(legacy_auth.as_string()?.into()))
                 }
+                (_, _, Some(username), password) => Some(Credentials::BasicAuth {
+                    username: username.as_string()?.into(),
+                    password: match password {
+                        Some(password) => Some(password.as_string()?.into()),
+                        None => None,
+                    },
+                }),
                 _ => None,
             }
         })
@@ -157,7 +153,7 @@ pub fn clear_crendentials_by_uri(uri: &Url, config: &mut KdlDocument) {
 fn clean_auth_nodes(uri: &Url, nodes: &mut Vec<KdlNode>) {
     nodes.retain_mut(|node| {
         let Ok(node_url) = Url::parse(node.name().value()) else {
-            return false;
+            return true;
         };
         oro_client::nerf_dart(&node_url) != oro_client::nerf_dart(uri)
     });
-- 
2.43.0


From 4eef6188833ae8740805b9aa96a27a3eb5d7d329 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 14/28] fix: reject dependency names that lead out of
 node_modules

---
 crates/node-maintainer/src/error.rs |  6 ++++++
 crates/node-maintainer/src/graph.rs | 17 +++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/crates/node-maintainer/src/error.rs b/crates/node-maintainer/src/error.rs
index b3bb79e..38ec95f 100644
--- a/crates/node-maintainer/src/error.rs
+++ b/crates/node-maintainer/src/error.rs
@@ -155,6 +155,12 @@ pub enum NodeMaintainerError {
     #[diagnostic(code(node_maintainer::mpsc_error), url(docsrs))]
     TrySendError,
 
+    /// A dependency's name can't be used as the name of a directory inside
+    /// `node_modules`.
+    #[error("`{0}` is not a valid name for a dependency.")]
+    #[diagnostic(code(node_maintainer::invalid_dependency_name), url(docsrs))]
+    InvalidDependencyName(String),
+
     /// Failed to validate a graph. Refer to the error message for more details.
     #[error("{0}")]
     #[diagnostic(code(node_maintainer::graph_error), url(docsrs))]
diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 921fdd5..c51697a 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -53,6 +53,20 @@ pub struct Node {
     pub(crate) children: IndexMap<UniCase<String>, NodeIndex>,
 }
 
+/// Dependencies are placed in `node_modules` by their name, so it can only be
+/// a plain `name` or `scope/name`: nothing that leads out of there, or to the
+/// places where we keep our own things.
+fn is_valid_name(name: &str) -> bool {
+    let mut parts = 0;
+    for part in name.split(['/', '\\']) {
+        if part.is_empty() || part.starts_with('.') || part == "node_modules" {
+            return false;
+        }
+        parts += 1;
+    }
+    parts <= 2
+}
+
 impl Node {
     pub(crate) fn new(
         name: UniCase<String>,
@@ -85,6 +99,9 @@ impl Node {
         };
         let mut dependency_reqs = IndexMap::new();
         for ((name, spec), dep_type) in deps {
+            if !is_valid_name(name) {
+                return Err(NodeMaintainerError::InvalidDependencyName(name.clone()));
+            }
             dependency_reqs.insert(
                 UniCase::new(name.clone()),
                 (format!("{name}@{spec}").parse()?, dep_type),
-- 
2.43.0


From 06255b07e5e479990e24f6a41337253555c7dc4e Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 15/28] fix: link isolated packages under the name they are
 placed by

---
 .../node-maintainer/src/linkers/isolated.rs   | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 10e1ead..3e0f747 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -125,27 +125,25 @@ impl IsolatedLinker {
         futures::stream::iter(indices)
             .map(Ok)
             .try_for_each_concurrent(self.opts.concurrency, move |idx| async move {
-                let pkg = &graph[idx].package;
-
                 let pkg_nm = if idx == graph.root {
                     prefix_ref.to_owned()
                 } else {
                     store_ref
                         .join(package_dir_name(graph, idx))
                         .join("node_modules")
-                        .join(pkg.name())
+                        .join(&**graph[idx].name)
                         .join("node_modules")
                 };
 
                 let mut expected_deps = HashMap::new();
 
                 for edge in graph.inner.edges_directed(idx, Direction::Outgoing) {
-                    let dep_pkg = &graph[edge.target()].package;
+                    let dep_name: &str = &graph[edge.target()].name;
                     let dep_store_dir = store_ref
                         .join(package_dir_name(graph, edge.target()))
                         .join("node_modules")
-                        .join(dep_pkg.name());
-                    let dep_nm_entry = pkg_nm.join(dep_pkg.name());
+                        .join(dep_name);
+                    let dep_nm_entry = pkg_nm.join(dep_name);
                     let relative = pathdiff::diff_paths(
                         &dep_store_dir,
                         dep_nm_entry.parent().expect("must have a parent"),
@@ -420,14 +418,12 @@ impl IsolatedLinker {
 
                     concurrent_count.fetch_add(1, atomic::Ordering::SeqCst);
 
-                    let pkg = &graph[child_idx].package;
-
                     // Actual package contents are extracted to
                     // `node_modules/.oro-store/<package-name>-<hash>/node_modules/<package-name>`
                     let target_dir = store_ref
                         .join(package_dir_name(graph, child_idx))
                         .join("node_modules")
-                        .join(pkg.name());
+                        .join(&**graph[child_idx].name);
 
                     let start = std::time::Instant::now();
 
@@ -519,7 +515,6 @@ impl IsolatedLinker {
     }
 
     pub fn package_dir(&self, graph: &Graph, idx: NodeIndex) -> (PathBuf, PathBuf) {
-        let pkg = &graph[idx].package;
         let dir = self
             .opts
             .root
@@ -527,7 +522,7 @@ impl IsolatedLinker {
             .join(STORE_DIR_NAME)
             .join(package_dir_name(graph, idx))
             .join("node_modules")
-            .join(pkg.name());
+            .join(&**graph[idx].name);
         (dir.clone(), dir)
     }
 
@@ -540,12 +535,12 @@ impl IsolatedLinker {
     ) -> Result<(), NodeMaintainerError> {
         // Then we symlink/junction all of the package's dependencies into its `node_modules` dir.
         for edge in graph.inner.edges_directed(node, Direction::Outgoing) {
-            let dep_pkg = &graph[edge.target()].package;
+            let dep_name: &str = &graph[edge.target()].name;
             let dep_store_dir = store_ref
                 .join(package_dir_name(graph, edge.target()))
                 .join("node_modules")
-                .join(dep_pkg.name());
-            let dep_nm_entry = target_nm.join(dep_pkg.name());
+                .join(dep_name);
+            let dep_nm_entry = target_nm.join(dep_name);
             if dep_nm_entry.exists() {
                 continue;
             }
-- 
2.43.0


From eaeb43c79c7c6751e6be6c87d6e9d8b0a5213f04 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 01:09:41 +0000
Subject: [PATCH 16/28] fix: keep the registry's path when it has no trailing
 slash

Registry URLs were joined as given, so a registry configured as
https://host/npm was asked for https://host/<package>.
---
 crates/oro-client/src/api/login.rs     |  6 ++----
 crates/oro-client/src/api/logout.rs    |  2 +-
 crates/oro-client/src/api/packument.rs |  4 ++--
 crates/oro-client/src/api/ping.rs      |  2 +-
 crates/oro-client/src/client.rs        | 10 ++++++++++
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/oro-client/src/api/login.rs b/crates/oro-client/src/api/login.rs
index 3258ab8..e4e03cd 100644
--- a/crates/oro-client/src/api/login.rs
+++ b/crates/oro-client/src/api/login.rs
@@ -86,7 +86,7 @@ impl OroClient {
 
     pub async fn login_web(&self, options: &LoginOptions) -> Result<LoginWeb, OroClientError> {
         let headers = Self::build_header(AuthType::Web, options);
-        let url = self.registry.join("-/v1/login")?;
+        let url = self.endpoint("-/v1/login")?;
         let text = self
             .client
             .post(url.clone())
@@ -112,9 +112,7 @@ impl OroClient {
     ) -> Result<LoginCouchResponse, OroClientError> {
         let mut headers = Self::build_header(AuthType::Legacy, options);
         let username_ = utf8_percent_encode(username, NON_ALPHANUMERIC).to_string();
-        let url = self
-            .registry
-            .join(&format!("-/user/org.couchdb.user:{username_}"))?;
+        let url = self.endpoint(&format!("-/user/org.couchdb.user:{username_}"))?;
 
         if let Some(otp) = otp {
             headers.insert(
diff --git a/crates/oro-client/src/api/logout.rs b/crates/oro-client/src/api/logout.rs
index 39d6051..e232504 100644
--- a/crates/oro-client/src/api/logout.rs
+++ b/crates/oro-client/src/api/logout.rs
@@ -3,7 +3,7 @@ use crate::{OroClient, OroClientError};
 impl OroClient {
     pub async fn delete_token(&self, token: &String) -> Result<(), OroClientError> {
         self.client
-            .delete(self.registry.join(&format!("-/user/token/{token}"))?)
+            .delete(self.endpoint(&format!("-/user/token/{token}"))?)
             .header("X-Oro-Registry", self.registry.to_string())
             .send()
             .await?;
diff --git a/crates/oro-client/src/api/packument.rs b/crates/oro-client/src/api/packument.rs
index b0a6899..ac1cdcd 100644
--- a/crates/oro-client/src/api/packument.rs
+++ b/crates/oro-client/src/api/packument.rs
@@ -11,7 +11,7 @@ impl OroClient {
         &self,
         package_name: impl AsRef<str>,
     ) -> Result<Packument, OroClientError> {
-        let url = self.registry.join(package_name.as_ref())?;
+        let url = self.endpoint(package_name.as_ref())?;
         tracing::trace!(
             "fetching packument for {} from {}",
             package_name.as_ref(),
@@ -26,7 +26,7 @@ impl OroClient {
         &self,
         package_name: impl AsRef<str>,
     ) -> Result<CorgiPackument, OroClientError> {
-        let url = self.registry.join(package_name.as_ref())?;
+        let url = self.endpoint(package_name.as_ref())?;
         let text = self.packument_impl(package_name, &url, true).await?;
         serde_json::from_str(&text)
             .map_err(move |e| OroClientError::from_json_err(e, url.to_string(), text))
diff --git a/crates/oro-client/src/api/ping.rs b/crates/oro-client/src/api/ping.rs
index ad9ee53..8a63f44 100644
--- a/crates/oro-client/src/api/ping.rs
+++ b/crates/oro-client/src/api/ping.rs
@@ -4,7 +4,7 @@ impl OroClient {
     pub async fn ping(&self) -> Result<String, OroClientError> {
         Ok(self
             .client
-            .get(self.registry.join("-/ping?write=true")?)
+            .get(self.endpoint("-/ping?write=true")?)
             .header("X-Oro-Registry", self.registry.to_string())
             .send()
             .await?
diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 1b721f9..1862f05 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -226,6 +226,16 @@ impl OroClient {
             client_uncached: self.client_uncached.clone(),
         }
     }
+
+    /// The URL of one of the registry's own endpoints. The registry's path is
+    /// kept whether or not it was written with a trailing slash.
+    pub(crate) fn endpoint(&self, path: &str) -> Result<Url, url::ParseError> {
+        let mut base = (*self.registry).clone();
+        if !base.path().ends_with('/') {
+            base.set_path(&format!("{}/", base.path()));
+        }
+        base.join(path)
+    }
 }
 
 impl Default for OroClient {
-- 
2.43.0


From ec4e68f2aaa1bc71c870669b86bb1587d79aef86 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 17/28] fix: keep the indentation of JSON files with bare CR
 line ends

---
 crates/oro-pretty-json/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/oro-pretty-json/src/lib.rs b/crates/oro-pretty-json/src/lib.rs
index 898d0e2..2095a58 100644
--- a/crates/oro-pretty-json/src/lib.rs
+++ b/crates/oro-pretty-json/src/lib.rs
@@ -52,9 +52,8 @@ pub fn to_string_pretty(formatted: &Formatted) -> Result<String, Error> {
 }
 
 fn detect_indentation(json: &str) -> Option<(char, usize)> {
-    let mut lines = json.lines();
-    lines.next()?;
-    let second_line = lines.next()?;
+    let (line_end, _) = detect_line_end(json)?;
+    let second_line = json.split(&line_end).nth(1)?;
     let mut indent = 0;
     let mut character = None;
     let mut last_whitespace_char = None;
-- 
2.43.0


From f1e0f414d4d5acfa40a82e13315c20de60991401 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 18/28] fix: keep the order of package.json dependencies when
 removing one

---
 src/commands/add.rs    | 3 ++-
 src/commands/remove.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index 47c1030..19366a8 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -152,7 +152,8 @@ impl AddCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // Not `remove`: that would move another entry in its place.
+                        obj.retain(|k, _| k != name);
                     }
                 }
             }
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index da4ab59..0a2e953 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -93,7 +93,8 @@ impl RemoveCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // Not `remove`: that would move another entry in its place.
+                        obj.retain(|k, _| k != name);
                         count += 1;
                     }
                 }
-- 
2.43.0


From 590fca6dc39d4ca68e59fe06c8a1adaff6c0ccb2 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 19/28] fix: treat node_modules as unknown until it is
 completely installed

A failed or interrupted run left the record of an earlier run's tree behind
(or wrote one before any script ran), so the next run kept packages of the
wrong version, and never ran the scripts that had failed.
---
 crates/node-maintainer/src/linkers/hoisted.rs |  5 ++--
 .../node-maintainer/src/linkers/isolated.rs   | 11 ++-----
 crates/node-maintainer/src/linkers/mod.rs     | 30 +++++++++++++++++--
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 941b75f..db639d6 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -47,6 +47,8 @@ impl HoistedLinker {
             return Ok(0);
         }
 
+        super::remove_meta(&prefix)?;
+
         if self.opts.actual_tree.is_none()
             || async_std::path::Path::new(&prefix.join(STORE_DIR_NAME))
                 .exists()
@@ -326,9 +328,6 @@ impl HoistedLinker {
                 },
             )
             .await?;
-        let meta = node_modules.join(META_FILE_NAME);
-        std::fs::write(&meta, graph.to_kdl()?.to_string())
-            .io_context(|| format!("Failed to write Orogene meta file to {}.", meta.display()))?;
         let extracted_count = actually_extracted.load(atomic::Ordering::SeqCst);
 
         tracing::debug!(
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 3e0f747..f021b1c 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -15,7 +15,7 @@ use petgraph::{stable_graph::NodeIndex, visit::EdgeRef, Direction};
 use ssri::Integrity;
 use unicase::UniCase;
 
-use crate::{error::IoContext, graph::Graph, NodeMaintainerError, META_FILE_NAME, STORE_DIR_NAME};
+use crate::{error::IoContext, graph::Graph, NodeMaintainerError, STORE_DIR_NAME};
 
 use super::LinkerOptions;
 
@@ -47,6 +47,8 @@ impl IsolatedLinker {
             return Ok(0);
         }
 
+        super::remove_meta(&prefix)?;
+
         let store = prefix.join(STORE_DIR_NAME);
 
         if self.opts.actual_tree.is_none() || !async_std::path::Path::new(&store).exists().await {
@@ -479,13 +481,6 @@ impl IsolatedLinker {
                 },
             )
             .await?;
-        let meta = node_modules.join(META_FILE_NAME);
-        std::fs::write(&meta, graph.to_kdl()?.to_string()).io_context(|| {
-            format!(
-                "Failed to write Orogene meta file into node_modules, at {}.",
-                meta.display()
-            )
-        })?;
         let extracted_count = actually_extracted.load(atomic::Ordering::SeqCst);
 
         tracing::debug!(
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 1234e66..57c4a69 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -24,7 +24,7 @@ use petgraph::stable_graph::NodeIndex;
 #[cfg(not(target_arch = "wasm32"))]
 use crate::{
     error::IoContext, graph::Graph, Lockfile, NodeMaintainerError, ProgressHandler, PruneProgress,
-    ScriptLineHandler, ScriptStartHandler,
+    ScriptLineHandler, ScriptStartHandler, META_FILE_NAME,
 };
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -119,7 +119,21 @@ impl Linker {
             "Ran lifecycle scripts in {}ms.",
             start.elapsed().as_millis()
         );
-        Ok(())
+        self.write_meta(graph)
+    }
+
+    /// Records what's in `node_modules`, for the next run to start from. This
+    /// is only true once everything has been extracted, linked, and built.
+    #[cfg(not(target_arch = "wasm32"))]
+    fn write_meta(&self, graph: &Graph) -> Result<(), NodeMaintainerError> {
+        let opts = match self {
+            Self::Isolated(isolated) => &isolated.opts,
+            Self::Hoisted(hoisted) => &hoisted.opts,
+            Self::Null => return Ok(()),
+        };
+        let meta = opts.root.join("node_modules").join(META_FILE_NAME);
+        std::fs::write(&meta, graph.to_kdl()?.to_string())
+            .io_context(|| format!("Failed to write Orogene meta file to {}.", meta.display()))
     }
 
     #[cfg(not(target_arch = "wasm32"))]
@@ -482,6 +496,18 @@ pub(crate) fn link_bin(from: &Path, to: &Path) -> Result<(), NodeMaintainerError
     Ok(())
 }
 
+/// Forgets what's in `node_modules`, because it's about to change. If anything
+/// goes wrong before all changes are done, the next run has to start over.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn remove_meta(node_modules: &Path) -> Result<(), NodeMaintainerError> {
+    let meta = node_modules.join(META_FILE_NAME);
+    match std::fs::remove_file(&meta) {
+        Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(e),
+        _ => Ok(()),
+    }
+    .io_context(|| format!("Failed to remove Orogene meta file at {}.", meta.display()))
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn mkdirp(
     path: &Path,
-- 
2.43.0


From 88d8f4beb7ad5bb9256f2ee63a3787bb0e710a76 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 03:09:04 +0000
Subject: [PATCH 20/28] fix: keep bundled dependencies of isolated packages
 when pruning

---
 crates/node-maintainer/src/linkers/isolated.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index f021b1c..d926e44 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -194,12 +194,16 @@ impl IsolatedLinker {
                                         )
                                     })?;
                                 } else if ty.is_dir() {
-                                    async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                        format!(
-                                            "Failed to rimraf contents of directory at {} while pruning node_modules.",
-                                            path.display()
-                                        )
-                                    })?;
+                                    // Inside a package, this is something it
+                                    // came with: a bundled dependency.
+                                    if idx == graph.root {
+                                        async_std::fs::remove_dir_all(&path).await.io_context(|| {
+                                            format!(
+                                                "Failed to rimraf contents of directory at {} while pruning node_modules.",
+                                                path.display()
+                                            )
+                                        })?;
+                                    }
                                 } else if ty.is_symlink() && *relative != path.read_link().await.io_context(|| format!("Failed to read symlink at {} while pruning node_modules.", path.display()))? {
                                     if async_std::fs::remove_file(&path).await.is_err() {
                                         async_std::fs::remove_dir_all(&path).await.io_context(|| {
-- 
2.43.0


From cd91969ac4ed9cc72ee218dff3cdc5fc3a358638 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 03:42:56 +0000
Subject: [PATCH 21/28] fix: let command line options of subcommands win over
 the config's

---
 crates/oro-config/src/lib.rs | 36 +++++++++++++++++++++++-------------
 src/lib.rs                   | 13 ++++++++++---
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index a23439c..14e8ea6 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -1,6 +1,6 @@
 //! Configuration loader for Orogene config files.
 
-use std::{collections::HashSet, ffi::OsString, path::PathBuf};
+use std::{collections::HashMap, ffi::OsString, path::PathBuf};
 
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
@@ -15,7 +15,12 @@ mod kdl_source;
 
 pub trait OroConfigLayerExt {
     fn with_negations(self) -> Self;
-    fn layered_args(&self, args: &mut Vec<OsString>, config: &OroConfig) -> Result<()>;
+    fn layered_args(
+        &self,
+        args: &mut Vec<OsString>,
+        matches: &ArgMatches,
+        config: &OroConfig,
+    ) -> Result<()>;
 }
 
 impl OroConfigLayerExt for Command {
@@ -51,25 +56,30 @@ impl OroConfigLayerExt for Command {
         self.args(negations)
     }
 
-    fn layered_args(&self, args: &mut Vec<OsString>, config: &OroConfig) -> Result<()> {
-        let mut long_opts = HashSet::new();
+    fn layered_args(
+        &self,
+        args: &mut Vec<OsString>,
+        matches: &ArgMatches,
+        config: &OroConfig,
+    ) -> Result<()> {
+        let mut long_opts = HashMap::new();
         for opt in self.get_arguments() {
-            if opt.get_long().is_some() {
-                long_opts.insert(opt.get_id().to_string());
+            if let Some(long) = opt.get_long() {
+                // Negations can't be configured: `foo false` is how config
+                // files spell `--no-foo`.
+                if !opt.get_id().as_str().starts_with("no-") {
+                    long_opts.insert(opt.get_id().to_string(), format!("no-{long}"));
+                }
             }
         }
-        let matches = self
-            .clone()
-            .ignore_errors(true)
-            .get_matches_from(&args.clone());
-        for opt in long_opts {
+        for (opt, negated) in long_opts {
             // TODO: _prepend_ args unconditionally if they're coming from
             // config, so multi-args get parsed right. Right now, if you have
             // something in your config, it'll get completely overridden by
             // the command line.
             if matches.value_source(&opt) != Some(clap::parser::ValueSource::CommandLine) {
-                let opt = opt.replace('_', "-");
-                if !args.contains(&OsString::from(format!("--no-{opt}"))) {
+                if matches.value_source(&negated) != Some(clap::parser::ValueSource::CommandLine) {
+                    let opt = opt.replace('_', "-");
                     if let Ok(bool) = config.get_bool(&opt) {
                         if bool {
                             args.push(OsString::from(format!("--{}", opt)));
diff --git a/src/lib.rs b/src/lib.rs
index 2344076..f77ecf9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -455,7 +455,10 @@ impl Orogene {
 
     fn current_command() -> Command {
         // First, we do a fake parse. All we really want is to get the subcommand, here.
-        let matches = Orogene::command().ignore_errors(true).get_matches();
+        let matches = Orogene::command()
+            .with_negations()
+            .ignore_errors(true)
+            .get_matches();
         let mut matches_ref = &matches;
 
         // Next, we "recursively" follow the subcommand chain until we bottom
@@ -499,12 +502,16 @@ impl Orogene {
         // Then, we find the subcommand starting from our toplevel Command.
         let mut command = command.clone();
         let mut subcmd = &mut command;
-        subcmd.layered_args(args, config)?;
+        let mut matches_ref = &matches;
+        subcmd.layered_args(args, matches_ref, config)?;
         while let Some(name) = subcmd_path.pop_front() {
             subcmd = subcmd
                 .find_subcommand_mut(name)
                 .expect("This should definitely exist?");
-            subcmd.layered_args(args, config)?;
+            matches_ref = matches_ref
+                .subcommand_matches(name)
+                .expect("This should definitely exist?");
+            subcmd.layered_args(args, matches_ref, config)?;
         }
         Ok(())
     }
-- 
2.43.0


From fa374443aa106004d29e19023b38938e9a8156e5 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 03:43:16 +0000
Subject: [PATCH 22/28] fix: keep config options out of the arguments after --,
 and values from being read as options

---
 crates/oro-config/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index 14e8ea6..196427f 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -62,6 +62,9 @@ impl OroConfigLayerExt for Command {
         matches: &ArgMatches,
         config: &OroConfig,
     ) -> Result<()> {
+        // Anything after a `--` is a positional argument.
+        let end = args.iter().position(|arg| arg == "--");
+        let rest = args.split_off(end.unwrap_or(args.len()));
         let mut long_opts = HashMap::new();
         for opt in self.get_arguments() {
             if let Some(long) = opt.get_long() {
@@ -87,35 +90,34 @@ impl OroConfigLayerExt for Command {
                             args.push(OsString::from(format!("--no-{}", opt)));
                         }
                     } else if let Ok(value) = config.get_string(&opt) {
-                        args.push(OsString::from(format!("--{}", opt)));
-                        args.push(OsString::from(value));
+                        args.push(OsString::from(format!("--{opt}={value}")));
                     } else if let Ok(value) = config.get_table(&opt) {
                         for (key, val) in value {
                             match &val.kind {
                                 ValueKind::Table(map) => {
                                     for (k, v) in map {
-                                        args.push(OsString::from(format!("--{}", opt)));
-                                        args.push(OsString::from(format!("{{{key}}}{k}={v}")));
+                                        args.push(OsString::from(format!(
+                                            "--{opt}={{{key}}}{k}={v}"
+                                        )));
                                     }
                                 }
                                 // TODO: error if val.kind is an Array
                                 _ => {
-                                    args.push(OsString::from(format!("--{}", opt)));
-                                    args.push(OsString::from(format!("{key}={val}")));
+                                    args.push(OsString::from(format!("--{opt}={key}={val}")));
                                 }
                             }
                         }
                     } else if let Ok(value) = config.get_array(&opt) {
                         for val in value {
                             if let Ok(val) = val.into_string() {
-                                args.push(OsString::from(format!("--{}", opt)));
-                                args.push(OsString::from(val));
+                                args.push(OsString::from(format!("--{opt}={val}")));
                             }
                         }
                     }
                 }
             }
         }
+        args.extend(rest);
         Ok(())
     }
 }
-- 
2.43.0


From e914cffcf1d7352da446139542bd59ff060dc1f4 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 03:43:16 +0000
Subject: [PATCH 23/28] fix: don't take config values like 1 or on for a
 boolean where an option wants a value

---
 crates/oro-config/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index 196427f..33a1601 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -71,11 +71,13 @@ impl OroConfigLayerExt for Command {
                 // Negations can't be configured: `foo false` is how config
                 // files spell `--no-foo`.
                 if !opt.get_id().as_str().starts_with("no-") {
-                    long_opts.insert(opt.get_id().to_string(), format!("no-{long}"));
+                    let takes_values = opt.get_action().takes_values();
+                    let negated = format!("no-{long}");
+                    long_opts.insert(opt.get_id().to_string(), (negated, takes_values));
                 }
             }
         }
-        for (opt, negated) in long_opts {
+        for (opt, (negated, takes_values)) in long_opts {
             // TODO: _prepend_ args unconditionally if they're coming from
             // config, so multi-args get parsed right. Right now, if you have
             // something in your config, it'll get completely overridden by
@@ -83,7 +85,11 @@ impl OroConfigLayerExt for Command {
             if matches.value_source(&opt) != Some(clap::parser::ValueSource::CommandLine) {
                 if matches.value_source(&negated) != Some(clap::parser::ValueSource::CommandLine) {
                     let opt = opt.replace('_', "-");
-                    if let Ok(bool) = config.get_bool(&opt) {
+                    // Things like `1` or `on` are only booleans to options
+                    // that don't take a value of their own.
+                    let flag =
+                        !takes_values || config.get_string(&opt).map_or(false, |v| v == "false");
+                    if let (true, Ok(bool)) = (flag, config.get_bool(&opt)) {
                         if bool {
                             args.push(OsString::from(format!("--{}", opt)));
                         } else {
-- 
2.43.0


From 051d93fd9dace37f0b6afa21cb60ebc993436ba2 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 03:43:32 +0000
Subject: [PATCH 24/28] fix: rank environment options below config files, and
 let them name options with dashes

---
 crates/oro-config/src/env_source.rs | 22 ++++++++++++++++++++++
 crates/oro-config/src/lib.rs        |  9 ++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)
 create mode 100644 crates/oro-config/src/env_source.rs

diff --git a/crates/oro-config/src/env_source.rs b/crates/oro-config/src/env_source.rs
new file mode 100644
index 0000000..93f3894
--- /dev/null
+++ b/crates/oro-config/src/env_source.rs
@@ -0,0 +1,22 @@
+use config::{ConfigError, Environment, Map, Source, Value};
+
+/// Environment variables, with keys spelled like the options they're for:
+/// shells only allow setting `oro_config_foo_bar`, and not
+/// `oro_config_foo-bar`.
+#[derive(Clone, Debug)]
+pub(crate) struct EnvSource(pub(crate) Environment);
+
+impl Source for EnvSource {
+    fn clone_into_box(&self) -> Box<dyn Source + Send + Sync> {
+        Box::new(self.clone())
+    }
+
+    fn collect(&self) -> Result<Map<String, Value>, ConfigError> {
+        Ok(self
+            .0
+            .collect()?
+            .into_iter()
+            .map(|(key, value)| (key.replace('_', "-"), value))
+            .collect())
+    }
+}
diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index 33a1601..7dadfd6 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -5,11 +5,13 @@ use std::{collections::HashMap, ffi::OsString, path::PathBuf};
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
 use config::{builder::DefaultState, ConfigBuilder, Environment, File, ValueKind};
+use env_source::EnvSource;
 use kdl_source::KdlFormat;
 use miette::Result;
 
 use error::OroConfigError;
 
+mod env_source;
 mod error;
 mod kdl_source;
 
@@ -181,15 +183,16 @@ impl OroConfigOptions {
 
     pub fn load(self) -> Result<OroConfig> {
         let mut builder = self.builder;
+        // Later sources win over earlier ones.
+        if self.env {
+            builder = builder.add_source(EnvSource(Environment::with_prefix("oro_config")));
+        }
         if self.global {
             if let Some(config_file) = self.global_config_file {
                 let path = config_file.display().to_string();
                 builder = builder.add_source(File::new(&path, KdlFormat).required(false));
             }
         }
-        if self.env {
-            builder = builder.add_source(Environment::with_prefix("oro_config"));
-        }
         if let Some(root) = self.pkg_root {
             builder = builder.add_source(
                 File::new(&root.join("oro.kdl").display().to_string(), KdlFormat).required(false),
-- 
2.43.0


From dca3a6b052d64b4bc1b9e2d0e81158b03551420c Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 25/28] fix: read the oro.kdl of the project's root when run
 from further down

---
 src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f77ecf9..cddc678 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,7 +96,10 @@ use std::{
 };
 
 use async_trait::async_trait;
-use clap::{Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
+use clap::{
+    parser::ValueSource, ArgMatches, Args, Command, CommandFactory, FromArgMatches as _, Parser,
+    Subcommand,
+};
 use dialoguer::{theme::ColorfulTheme, Confirm};
 use directories::ProjectDirs;
 use is_terminal::IsTerminal;
@@ -425,7 +428,7 @@ impl Orogene {
         }
     }
 
-    fn build_config(&self) -> Result<OroConfig> {
+    fn build_config(&self, matches: &ArgMatches) -> Result<OroConfig> {
         let dirs = ProjectDirs::from("", "", "orogene");
         let cwd = std::env::current_dir().into_diagnostic()?;
         let root = if let Some(root) = pkg_root(&cwd) {
@@ -446,7 +449,13 @@ impl Orogene {
         } else {
             cfg_builder
                 .global_config_file(dirs.map(|d| d.config_dir().to_owned().join("oro.kdl")))
-                .pkg_root(Some(self.root.clone()))
+                .pkg_root(Some(
+                    if matches.value_source("root") == Some(ValueSource::CommandLine) {
+                        self.root.clone()
+                    } else {
+                        root.to_owned()
+                    },
+                ))
                 .load()?
         };
 
@@ -695,7 +704,7 @@ impl Orogene {
         let command = Self::current_command();
         let matches = command.clone().get_matches();
         let oro = Orogene::from_arg_matches(&matches).into_diagnostic()?;
-        let config = oro.build_config()?;
+        let config = oro.build_config(&matches)?;
         let mut args = std::env::args_os().collect::<Vec<_>>();
         Self::layer_command_args(&command, &mut args, &config)?;
         let mut oro =
-- 
2.43.0


From 1ca3069bcd8bc671529b04af43715b455a1a306a Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 26/28] fix: record a login's scope also where
 scoped-registries has no block

---
 crates/oro-npm-account/src/config.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 0a76296..4dfcc65 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -70,11 +70,11 @@ pub fn set_scoped_registry(scope: &str, registry: &Url, config: &mut KdlDocument
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("scoped-registries").is_none() {
                 children.nodes_mut().push(KdlNode::new("scoped-registries"));
-                children
-                    .get_mut("scoped-registries")
-                    .unwrap()
-                    .ensure_children();
             }
+            children
+                .get_mut("scoped-registries")
+                .unwrap()
+                .ensure_children();
         }
     }
 
-- 
2.43.0


From c5399b4b4f4f5a53acbf8b6810e748442671f4f1 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Fri, 20 Nov 2026 05:25:01 +0000
Subject: [PATCH 27/28] fix: read credentials of a registry whose address has a
 = in it

---
 src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cddc678..c1660c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -841,18 +841,15 @@ where
     let open_pos = s.find('{').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `{{` found in `{s}`",)
     })?;
-    let close_pos = s.find('}').ok_or_else(|| {
+    // The top key may itself have a `=` in it, and the value anything at all.
+    let (top_key, rest) = s[open_pos + 1..].split_once('}').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `}}` found in `{s}`",)
     })?;
-    let eq_pos = s.find('=').ok_or_else(|| {
+    let (nested_key, value) = rest.split_once('=').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `=` found in `{s}`")
     })?;
 
-    Ok((
-        s[open_pos + 1..close_pos].parse()?,
-        s[close_pos + 1..eq_pos].parse()?,
-        s[eq_pos + 1..].parse()?,
-    ))
+    Ok((top_key.parse()?, nested_key.parse()?, value.parse()?))
 }
 
 #[derive(Debug, Subcommand)]
-- 
2.43.0


From a58bb4c7e1c938ff0476301ecc1c7a8f8f3fa91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:08 +0000
Subject: [PATCH 28/28] fix: quote keyword package names in package-lock.kdl

Packages called true, false or null were written as bare identifiers, which
KDL reserves, so the lockfile that was written could not be read again.
---
 crates/node-maintainer/src/lockfile.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 191b1a6..143dd98 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -46,6 +46,8 @@ impl Lockfile {
             doc.nodes_mut().push(pkg.to_kdl());
         }
         doc.fmt();
+        // This has to come after `fmt`, which resets the way names are written.
+        quote_keyword_names(&mut doc);
         doc
     }
 
@@ -128,6 +130,21 @@ impl Lockfile {
     }
 }
 
+/// Packages can be called `true`, `false`, or `null`. As node names, those
+/// have to be quoted, because they can't be parsed otherwise, and the `kdl`
+/// crate doesn't do that by itself.
+fn quote_keyword_names(doc: &mut KdlDocument) {
+    for node in doc.nodes_mut() {
+        if matches!(node.name().value(), "true" | "false" | "null") {
+            let quoted = format!("\"{}\"", node.name().value());
+            node.name_mut().set_repr(quoted);
+        }
+        if let Some(children) = node.children_mut() {
+            quote_keyword_names(children);
+        }
+    }
+}
+
 #[derive(Default, Debug, Clone, PartialEq, Eq)]
 pub struct LockfileNode {
     pub name: UniCase<String>,
-- 
2.43.0

