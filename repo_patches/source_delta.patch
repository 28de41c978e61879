From 29f2b654f1ee982471074844eb4bbf06a3be2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 01/36] fix: a directory without an entry point is a resolve
 failure, not a panic

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0dcfb57..870c963 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,7 +252,7 @@ impl Resolver {
                 };
                 ResolverStats::Error((err_msg, info))
             }
-            _ => unreachable!(),
+            ResolverStats::Resolving(info) => ResolverStats::Error((resolve_err_msg, info)),
         }
     }
 }
-- 
2.43.0


From c62090b05072013aa107d3e165a1e8cbe1552c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 02/36] fix: a package without an entry point does not stop the
 node_modules walk

---
 src/resolve.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index f33572a..43aef28 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -104,6 +104,8 @@ impl Resolver {
                             ResolverStats::Error((error, err_info))
                         }
                     }
+                    // the package has no entry point: go on with the original request
+                    ResolverStats::Resolving(_) => ResolverStats::Resolving(info),
                     _ => stats,
                 }
             }
-- 
2.43.0


From 239cc313e7eeda8ab389498434450c342a9efac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 03/36] fix: every main field and main file is tried from the
 directory itself

---
 src/lib.rs               |  8 --------
 src/plugin/main_field.rs | 10 +++-------
 src/plugin/main_file.rs  |  5 +----
 3 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 870c963..ab75caa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,14 +144,6 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
-
-    pub fn extract_info(self) -> ResolveInfo {
-        match self {
-            ResolverStats::Resolving(info) => info,
-            ResolverStats::Error((_, info)) => info,
-            _ => unreachable!(),
-        }
-    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index a68c6a7..742f2ea 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -21,8 +21,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            let mut main_field_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
-
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -34,10 +32,10 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         break;
                     }
 
-                    main_field_info = if main_field.starts_with("./") {
-                        main_field_info.with_target(main_field)
+                    let main_field_info = if main_field.starts_with("./") {
+                        info.clone().with_target(main_field)
                     } else {
-                        main_field_info.with_target(&format!("./{main_field}"))
+                        info.clone().with_target(&format!("./{main_field}"))
                     };
 
                     let stats = AliasFieldPlugin::new(self.pkg_info)
@@ -47,8 +45,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     if stats.is_success() {
                         return stats;
-                    } else {
-                        main_field_info = stats.extract_info();
                     }
                 }
             }
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 85a0789..a9b520b 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -18,9 +18,8 @@ impl<'a> MainFilePlugin<'a> {
 
 impl<'a> Plugin for MainFilePlugin<'a> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        let mut main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
         for main_file in &resolver.options.main_files {
-            main_file_info = main_file_info.with_target(&format!("./{main_file}"));
+            let main_file_info = info.clone().with_target(&format!("./{main_file}"));
             let stats = ExportsFieldPlugin::new(self.pkg_info)
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
@@ -28,8 +27,6 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .and_then(|info| resolver.resolve_as_file(info));
             if stats.is_success() {
                 return stats;
-            } else {
-                main_file_info = stats.extract_info();
             }
         }
         ResolverStats::Resolving(info)
-- 
2.43.0


From 9b0fdde472af5049b0dc118a77e4b7f741a00f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 04/36] fix: text matched by a wildcard key is substituted
 verbatim

---
 src/map.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 8122f31..4df95af 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -148,9 +148,7 @@ pub trait Field {
                 (true, false) => Err(format!("Expected {target} is folder mapping")),
                 (false, true) => Err(format!("Expected {target} is file mapping")),
                 (false, false) => {
-                    let request = remaining_request.as_ref().unwrap();
-                    let to = &request.replace('$', "$$");
-                    Ok(target.replace('*', to))
+                    Ok(target.replace('*', request))
                 }
             }
         } else if !is_folder {
-- 
2.43.0


From 792303b063ae80cee0561b98f86123f27996ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 05/36] fix: wildcard and nested exact keys are measured in
 characters of the whole request

---
 src/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 4df95af..3caf1a1 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -420,7 +420,7 @@ impl PathTreeNode {
         if let Some(map) = &node.wildcards {
             for (key, target) in map {
                 if remaining_request.starts_with(key) {
-                    let index = (last_non_slash_index + key.len()) as i32;
+                    let index = (last_non_slash_index + key.chars().count()) as i32;
                     if last_folder_match.is_none() || last_folder_match.unwrap().1 < index {
                         last_folder_match = Some((target, index));
                     }
@@ -484,7 +484,7 @@ impl PathTreeNode {
             .iter()
             .collect::<String>();
             if let Some(value) = node.files.get(&remaining_request) {
-                Some((value, (remaining_request.len() + 1) as i32))
+                Some((value, (request.len() + 1) as i32))
             } else {
                 Self::apply_wildcard_mappings(
                     Self::apply_folder_mapping(last_folder_match, node, last_non_slash_index),
-- 
2.43.0


From 053e25e3021b3f3876c9dc32d0976fdf8fb3e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 06/36] fix: an exports or imports target is checked segment by
 segment

---
 src/map.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 3caf1a1..3eb8f8e 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -81,23 +81,18 @@ pub struct PathTreeNode {
 ///  `build_field_path_tree` and `field_process`.
 pub trait Field {
     fn check_target(relative_path: &str) -> bool {
-        let relative_path = relative_path.chars().collect::<Vec<char>>();
-        let slash_index_list = PathTreeNode::get_next_list(&relative_path, '/');
-        let mut last_non_slash_index = 0;
         let mut cd = 0;
-        while let Some(&Some(slash_index)) = slash_index_list.get(last_non_slash_index) {
-            if relative_path[last_non_slash_index] == '.'
-                && relative_path[last_non_slash_index + 1] == '.'
-            {
-                cd -= 1;
-                if cd < 0 {
-                    return false;
+        for segment in relative_path.split('/') {
+            match segment {
+                "" | "." => {}
+                ".." => {
+                    cd -= 1;
+                    if cd < 0 {
+                        return false;
+                    }
                 }
-            } else if relative_path[last_non_slash_index] == '.' {
-            } else {
-                cd += 1;
+                _ => cd += 1,
             }
-            last_non_slash_index = slash_index + 1;
         }
         true
     }
-- 
2.43.0


From 7036d57fa755616c35b763893e00df24c8e613e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 07/36] fix: a package name that is only a prefix of the
 request is not a self reference

---
 src/plugin/exports_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f7d1214..600188b 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -25,8 +25,8 @@ impl<'a> ExportsFieldPlugin<'a> {
         pkg_info
             .name
             .as_ref()
-            .map(|pkg_name| info.request.target.starts_with(pkg_name))
-            .map_or(false, |ans| ans)
+            .and_then(|pkg_name| info.request.target.strip_prefix(pkg_name.as_str()))
+            .map_or(false, |rest| rest.is_empty() || rest.starts_with('/'))
     }
 }
 
-- 
2.43.0


From 1b13d54126247226f236caebfbe6aa61583629e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 08/36] fix: a package can refer to itself without a
 node_modules directory

---
 src/lib.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ab75caa..d6f5d5d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,10 +59,14 @@ use cache::DebugReadMap;
 
 pub use cache::ResolverCache;
 pub use description::SideEffects;
+use description::PkgFileInfo;
 use kind::PathKind;
 pub use options::{AliasMap, ResolverOptions};
 use parse::Request;
-use plugin::{AliasFieldPlugin, AliasPlugin, ImportsFieldPlugin, Plugin, PreferRelativePlugin};
+use plugin::{
+    AliasFieldPlugin, AliasPlugin, ExportsFieldPlugin, ImportsFieldPlugin, Plugin,
+    PreferRelativePlugin,
+};
 use std::{
     path::{Path, PathBuf},
     sync::Arc,
@@ -221,6 +225,7 @@ impl Resolver {
                 ImportsFieldPlugin::new(&pkg_info_wrap)
                     .apply(self, info)
                     .and_then(|info| AliasFieldPlugin::new(&pkg_info_wrap).apply(self, info))
+                    .and_then(|info| self.resolve_self(&pkg_info_wrap, info))
             })
             .and_then(|info| {
                 if matches!(
@@ -247,6 +252,25 @@ impl Resolver {
             ResolverStats::Resolving(info) => ResolverStats::Error((resolve_err_msg, info)),
         }
     }
+
+    /// A package that owns the issuing directory can be addressed by its own name,
+    /// whether or not there is a `node_modules` directory.
+    fn resolve_self(
+        &self,
+        pkg_info: &Option<Arc<PkgFileInfo>>,
+        info: ResolveInfo,
+    ) -> ResolverStats {
+        let is_self = pkg_info.as_ref().map_or(false, |pkg_info| {
+            info.path.starts_with(&pkg_info.abs_dir_path)
+                && ExportsFieldPlugin::is_resolve_self(pkg_info, &info)
+        });
+        if !is_self {
+            return ResolverStats::Resolving(info);
+        }
+        ExportsFieldPlugin::new(pkg_info)
+            .apply(self, info)
+            .and_then(|info| AliasFieldPlugin::new(pkg_info).apply(self, info))
+    }
 }
 
 #[cfg(debug_assertions)]
-- 
2.43.0


From 8c27dfb56b528100afa5663ff7bfb8cba8d5602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 09/36] fix: an internal request is answered only by the
 imports map of its directory

---
 src/lib.rs                  |  8 ++++----
 src/plugin/imports_field.rs | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d6f5d5d..9648cfc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -213,10 +213,10 @@ impl Resolver {
             .apply(self, info)
             .and_then(|info| PreferRelativePlugin::default().apply(self, info))
             .and_then(|info| {
-                let request = if info.request.kind.eq(&PathKind::Normal) {
-                    info.path.join(MODULE).join(&*info.request.target)
-                } else {
-                    info.get_path()
+                let request = match info.request.kind {
+                    PathKind::Normal => info.path.join(MODULE).join(&*info.request.target),
+                    PathKind::Internal => info.path.to_path_buf(),
+                    _ => info.get_path(),
                 };
                 let pkg_info_wrap = match self.load_pkg_file(&request) {
                     Ok(pkg_info_wrap) => pkg_info_wrap,
diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index e1dcbdb..4102018 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -28,11 +28,11 @@ impl<'a> ImportsFieldPlugin<'a> {
 
 impl<'a> Plugin for ImportsFieldPlugin<'a> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        if let Some(pkg_info) = self.pkg_info {
-            if !info.request.target.starts_with('#') {
-                return ResolverStats::Resolving(info);
-            }
+        if !info.request.target.starts_with('#') {
+            return ResolverStats::Resolving(info);
+        }
 
+        if let Some(pkg_info) = self.pkg_info {
             let target = &info.request.target;
             let list = if let Some(root) = &pkg_info.imports_field_tree {
                 match ImportsField::field_process(root, target, &resolver.options.condition_names) {
@@ -40,7 +40,7 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                     Err(err) => return ResolverStats::Error((err, info)),
                 }
             } else {
-                return ResolverStats::Resolving(info);
+                return ResolverStats::Error((Resolver::raise_tag(), info));
             };
 
             if let Some(item) = list.first() {
@@ -83,7 +83,7 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                 ResolverStats::Error((format!("Package path {target} is not exported"), info))
             }
         } else {
-            ResolverStats::Resolving(info)
+            ResolverStats::Error((Resolver::raise_tag(), info))
         }
     }
 }
-- 
2.43.0


From 03ea1215381bffd8dd5cf910b6b3ab8f034b5a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 10/36] fix: an imports target naming a package is looked up
 like a package request

---
 src/plugin/imports_field.rs | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 4102018..06535a0 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -1,8 +1,8 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, plugin::ExportsFieldPlugin, Resolver, MODULE};
+use crate::{description::PkgFileInfo, Resolver};
 
-use super::{AliasFieldPlugin, Plugin};
+use super::Plugin;
 use crate::{
     map::{Field, ImportsField},
     PathKind, ResolveInfo, ResolverStats,
@@ -47,33 +47,11 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                 let request = resolver.parse(item);
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
-                let info = ResolveInfo::from(
-                    if is_normal_kind {
-                        pkg_info.abs_dir_path.join(MODULE)
-                    } else {
-                        pkg_info.abs_dir_path.to_path_buf()
-                    },
-                    request,
-                );
+                let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
 
                 if is_normal_kind {
-                    let path = info.get_path();
-                    // TODO: should optimized
-                    let pkg_info = match resolver.load_pkg_file(&path) {
-                        Ok(info) => info,
-                        Err(err) => return ResolverStats::Error((err, info)),
-                    };
-                    if let Some(ref pkg_info) = pkg_info {
-                        if !pkg_info.abs_dir_path.display().to_string().contains(MODULE) {
-                            return ResolverStats::Resolving(info);
-                        }
-                    }
-
-                    ExportsFieldPlugin::new(&pkg_info)
-                        .apply(resolver, info)
-                        .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| AliasFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| ImportsFieldPlugin::check_target(info, target))
+                    // a package, looked up like any other package request of this directory
+                    ResolverStats::Resolving(info)
                 } else if is_internal_kind {
                     self.apply(resolver, info)
                 } else {
-- 
2.43.0


From b87c999646e7c25996208dafb7717c82831abec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 11/36] fix: imports trees are cached apart from exports trees

---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 416468d..2161d1e 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -90,7 +90,7 @@ impl Resolver {
                 Some(tree.clone())
             } else {
                 let tree = Arc::new(ImportsField::build_field_path_tree(value)?);
-                self.cache.exports_content_to_tree.insert(key, tree.clone());
+                self.cache.imports_content_to_tree.insert(key, tree.clone());
                 Some(tree)
             }
         } else {
-- 
2.43.0


From 6847f6e5a38031234542d1f66032e4c87a1a76b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 12/36] fix: a package name is cut at a byte offset, not a
 character count

---
 src/resolve.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 43aef28..59f53a6 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -50,8 +50,7 @@ impl Resolver {
             // join request part
             let has_namespace_scope = target.starts_with('@');
             let slash_index_list: Vec<usize> = target
-                .chars()
-                .enumerate()
+                .char_indices()
                 .filter(|(_, char)| '/'.eq(char))
                 .map(|(index, _)| index)
                 .collect();
-- 
2.43.0


From 45175ccf2fea186c2d4c85110355b6b0ec89fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 13/36] fix: a scope without a package name is no panic

---
 src/plugin/exports_field.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index 600188b..d49bca4 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -47,8 +47,7 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 let query = &info.request.query;
                 let fragment = &info.request.fragment;
                 let chars: String = if target.starts_with('@') {
-                    let index = target.find('/').unwrap();
-                    &target[index + 1..]
+                    target.split_once('/').map_or("", |(_, name)| name)
                 } else {
                     target
                 }
-- 
2.43.0


From c8b2fa61a7f5aace8342475f649626474d478487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 14/36] fix: assert/strict is a builtin module

---
 src/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kind.rs b/src/kind.rs
index 102dbe3..b165bc9 100644
--- a/src/kind.rs
+++ b/src/kind.rs
@@ -29,7 +29,7 @@ const BUILT_IN_MODULE_SET: Set<&'static str> = phf_set! {
    "_tls_common",
    "_tls_wrap",
    "assert",
-   "assert/,strict",
+   "assert/strict",
    "async_hooks",
    "buffer",
    "child_process",
-- 
2.43.0


From a85368ff2d3136bdcb3cc5b751c80fde8b0eb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 15/36] fix: prefer_relative applies to package requests only

---
 src/plugin/prefer_relative.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plugin/prefer_relative.rs b/src/plugin/prefer_relative.rs
index 60c2351..36cad29 100644
--- a/src/plugin/prefer_relative.rs
+++ b/src/plugin/prefer_relative.rs
@@ -1,4 +1,4 @@
-use crate::Resolver;
+use crate::{kind::PathKind, Resolver};
 
 use super::{Plugin, ResolveInfo, ResolverStats};
 #[derive(Default)]
@@ -6,7 +6,7 @@ pub struct PreferRelativePlugin;
 
 impl Plugin for PreferRelativePlugin {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        if info.request.target.starts_with("../") || info.request.target.starts_with("./") {
+        if !matches!(info.request.kind, PathKind::Normal) {
             return ResolverStats::Resolving(info);
         }
 
-- 
2.43.0


From e27d3eac9facba815c8e4712c9383f77a7c0a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 16/36] fix: unexpected values in exports and imports are
 errors, not panics

---
 src/lib.rs |  2 +-
 src/map.rs | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9648cfc..c61238c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -58,8 +58,8 @@ mod utils;
 use cache::DebugReadMap;
 
 pub use cache::ResolverCache;
-pub use description::SideEffects;
 use description::PkgFileInfo;
+pub use description::SideEffects;
 use kind::PathKind;
 pub use options::{AliasMap, ResolverOptions};
 use parse::Request;
diff --git a/src/map.rs b/src/map.rs
index 3eb8f8e..ebadbda 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -106,15 +106,21 @@ pub trait Field {
     {
         let result = match json_value {
             serde_json::Value::String(str) => MappingValue::Direct(str.to_string()),
+            // no target
+            serde_json::Value::Null => MappingValue::Array(vec![]),
             serde_json::Value::Array(arr) => {
                 let mut temp: ArrayMapping = vec![];
-                for item in arr {
+                for item in arr.iter().filter(|item| !item.is_null()) {
                     match Self::from_json(item)? {
                         MappingValue::Direct(direct) => temp.push(AvailableMapping::Direct(direct)),
                         MappingValue::Conditional(conditional) => {
                             temp.push(AvailableMapping::Conditional(conditional))
                         }
-                        _ => panic!("Array mapping is not allowed nested in exports field"),
+                        MappingValue::Array(_) => {
+                            return Err(
+                                "Array mapping is not allowed nested in a field value".to_string()
+                            )
+                        }
                     }
                 }
                 MappingValue::Array(temp)
@@ -126,7 +132,7 @@ pub trait Field {
                 }
                 MappingValue::Conditional(map)
             }
-            _ => unreachable!(),
+            _ => return Err(format!("Unexpected value {json_value} in a field value")),
         };
         Ok(result)
     }
@@ -142,9 +148,7 @@ pub trait Field {
                 (true, true) => Ok(format!("{target}{request}")),
                 (true, false) => Err(format!("Expected {target} is folder mapping")),
                 (false, true) => Err(format!("Expected {target} is file mapping")),
-                (false, false) => {
-                    Ok(target.replace('*', request))
-                }
+                (false, false) => Ok(target.replace('*', request)),
             }
         } else if !is_folder {
             Ok(target.to_string())
@@ -355,7 +359,11 @@ impl Field for ImportsField {
     fn build_field_path_tree(imports_field_value: &serde_json::Value) -> RResult<PathTreeNode> {
         let field = match Self::from_json(imports_field_value)? {
             MappingValue::Conditional(field) => field,
-            _ => unreachable!(),
+            _ => {
+                return Err(format!(
+                    "Imports field should be an object, but got {imports_field_value}"
+                ))
+            }
         };
         let mut root = PathTreeNode::default();
         for (key, value) in field {
-- 
2.43.0


From 96529e9944832f9094e6d97abbbcda38c1909560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 17/36] fix: a browser entry that is true is no panic

---
 src/description.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 2161d1e..c7f21d9 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -57,8 +57,7 @@ impl Resolver {
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
                 for (key, value) in map {
-                    if let Some(b) = value.as_bool() {
-                        assert!(!b);
+                    if value.as_bool() == Some(false) {
                         alias_fields.insert(key.to_string(), AliasMap::Ignored);
                     } else if let Some(s) = value.as_str() {
                         alias_fields.insert(key.to_string(), AliasMap::Target(s.to_string()));
-- 
2.43.0


From 3e9f476622dcf84a89624715df3ca926c3dcbc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 18/36] fix: the search for a description file ends at every
 kind of path

---
 src/description.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index c7f21d9..0568b10 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -170,7 +170,7 @@ impl Resolver {
         if !path.is_dir() {
             return match path.parent() {
                 Some(dir) => self.load_pkg_file(dir),
-                None => Err(Resolver::raise_tag()),
+                None => Ok(None),
             };
         }
 
@@ -208,10 +208,10 @@ impl Resolver {
                         self.cache
                             .file_dir_to_pkg_info
                             .insert(path.to_path_buf(), None);
-                        match path.parent() {
-                            Some(parent) => path = parent,
-                            None => return Ok(None),
-                        }
+                    }
+                    match path.parent() {
+                        Some(parent) => path = parent,
+                        None => return Ok(None),
                     }
                 }
             }
-- 
2.43.0


From 26313bd969a3df5a3aa5f176d919832a35a4df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 19/36] fix: a shared cache keeps description files of
 different names apart

---
 src/cache.rs       | 30 +++++++++++++++++++++++++++++-
 src/description.rs | 12 ++++++------
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 85e0c79..b490305 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -1,17 +1,45 @@
 use crate::description::PkgFileInfo;
 use crate::map::PathTreeNode;
 use dashmap::DashMap;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
+const DEFAULT_DESCRIPTION_FILE: &str = "package.json";
+
 #[derive(Default, Debug, Clone)]
 pub struct ResolverCache {
     /// file_directory -> the closet package.json info
     pub file_dir_to_pkg_info: DashMap<PathBuf, Option<Arc<PkgFileInfo>>>,
+    /// the same for description files with another name:
+    /// (name, file_directory) -> the closet description file info
+    pub named_file_dir_to_pkg_info: DashMap<(String, PathBuf), Option<Arc<PkgFileInfo>>>,
     pub exports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
     pub imports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
 }
 
+impl ResolverCache {
+    pub(crate) fn get_pkg_info(&self, name: &str, dir: &Path) -> Option<Option<Arc<PkgFileInfo>>> {
+        if name == DEFAULT_DESCRIPTION_FILE {
+            self.file_dir_to_pkg_info
+                .get(dir)
+                .map(|info| info.value().clone())
+        } else {
+            self.named_file_dir_to_pkg_info
+                .get(&(name.to_string(), dir.to_path_buf()))
+                .map(|info| info.value().clone())
+        }
+    }
+
+    pub(crate) fn insert_pkg_info(&self, name: &str, dir: &Path, info: Option<Arc<PkgFileInfo>>) {
+        if name == DEFAULT_DESCRIPTION_FILE {
+            self.file_dir_to_pkg_info.insert(dir.to_path_buf(), info);
+        } else {
+            self.named_file_dir_to_pkg_info
+                .insert((name.to_string(), dir.to_path_buf()), info);
+        }
+    }
+}
+
 #[cfg(debug_assertions)]
 #[derive(Default, Debug, Clone)]
 pub(crate) struct DebugReadMap(DashMap<PathBuf, bool>);
diff --git a/src/description.rs b/src/description.rs
index 0568b10..8ad02b8 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -176,11 +176,13 @@ impl Resolver {
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
-        let need_find_up = if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
+        let need_find_up = if let Some(pkg_info) =
+            self.cache.get_pkg_info(description_file_name, path)
+        {
             // if pkg_info_cache contain this key
             if !self.fs.need_update(&description_file_path)? {
                 // and not modified, then return
-                return Ok(r#ref.clone());
+                return Ok(pkg_info);
             } else {
                 #[cfg(debug_assertions)]
                 {
@@ -206,8 +208,7 @@ impl Resolver {
                 loop {
                     if path.is_dir() {
                         self.cache
-                            .file_dir_to_pkg_info
-                            .insert(path.to_path_buf(), None);
+                            .insert_pkg_info(description_file_name, path, None);
                     }
                     match path.parent() {
                         Some(parent) => path = parent,
@@ -222,8 +223,7 @@ impl Resolver {
         ));
 
         self.cache
-            .file_dir_to_pkg_info
-            .insert(path.to_path_buf(), pkg_info.clone());
+            .insert_pkg_info(description_file_name, path, pkg_info.clone());
 
         Ok(pkg_info)
     }
-- 
2.43.0


From bafd893970d66975a0efeeaa57e310430bc0e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 20/36] fix: a description file with an older modification time
 is read again

---
 src/fs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fs.rs b/src/fs.rs
index 2d67760..84b5d3f 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -42,11 +42,11 @@ impl CacheFile {
             .get(path.as_ref())
             .map(|value| value.1)
             .map(|stored_last_modify_time| -> RResult<bool> {
-                let duration = Self::get_last_modified_time_from_file(path.as_ref())?
+                let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
+                // the clock may have been moved back
+                let duration = last_modified_time
                     .duration_since(stored_last_modify_time)
-                    .map_err(|_| {
-                        format!("Compare SystemTime failed in {}", path.as_ref().display())
-                    })?;
+                    .unwrap_or_else(|err| err.duration());
                 Ok(duration >= self.duration)
             })
             .map_or(Ok(true), |val| val)
-- 
2.43.0


From d808afcd8bab861691bc4102e5d33839b28557f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 21/36] fix: a description file that became malformed is
 reported until it is repaired

---
 src/cache.rs       |  9 +++++++++
 src/description.rs | 15 ++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index b490305..07b30aa 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -38,6 +38,15 @@ impl ResolverCache {
                 .insert((name.to_string(), dir.to_path_buf()), info);
         }
     }
+
+    pub(crate) fn remove_pkg_info(&self, name: &str, dir: &Path) {
+        if name == DEFAULT_DESCRIPTION_FILE {
+            self.file_dir_to_pkg_info.remove(dir);
+        } else {
+            self.named_file_dir_to_pkg_info
+                .remove(&(name.to_string(), dir.to_path_buf()));
+        }
+    }
 }
 
 #[cfg(debug_assertions)]
diff --git a/src/description.rs b/src/description.rs
index 8ad02b8..26fbe06 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -218,9 +218,18 @@ impl Resolver {
             }
         }
 
-        let pkg_info = Some(Arc::new(
-            self.parse_description_file(path, description_file_path)?,
-        ));
+        let pkg_info = match self.parse_description_file(path, description_file_path.clone()) {
+            Ok(pkg_info) => Some(Arc::new(pkg_info)),
+            Err(err) => {
+                // what was known about this directory is outdated
+                self.cache.remove_pkg_info(description_file_name, path);
+                #[cfg(debug_assertions)]
+                {
+                    self.dbg_read_map.remove(&description_file_path);
+                }
+                return Err(err);
+            }
+        };
 
         self.cache
             .insert_pkg_info(description_file_name, path, pkg_info.clone());
-- 
2.43.0


From f5e26edbebed2edf995015b4030fdce0a82e9916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 22/36] fix: an unreadable description file is not remembered
 as absent

---
 src/description.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 26fbe06..bb6d8c1 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -203,18 +203,19 @@ impl Resolver {
                 return self.load_pkg_file(&target_dir);
             } else {
                 // it means all paths during from the `path` to root pointed None.
-                // cache it
-                let mut path = path;
-                loop {
-                    if path.is_dir() {
-                        self.cache
-                            .insert_pkg_info(description_file_name, path, None);
+                // cache it, unless one of them could not be examined
+                let is_certain = path.ancestors().all(|dir| {
+                    match std::fs::metadata(dir.join(description_file_name)) {
+                        Ok(metadata) => !metadata.is_file(),
+                        Err(err) => err.kind() == std::io::ErrorKind::NotFound,
                     }
-                    match path.parent() {
-                        Some(parent) => path = parent,
-                        None => return Ok(None),
+                });
+                if is_certain {
+                    for dir in path.ancestors().filter(|dir| dir.is_dir()) {
+                        self.cache.insert_pkg_info(description_file_name, dir, None);
                     }
                 }
+                return Ok(None);
             }
         }
 
-- 
2.43.0


From 2f1e0a9eca52e3f31fe0ceb0129c325590c9ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 23/36] fix: configurations that refer to themselves end in an
 error

---
 src/lib.rs                    | 14 +++++++++++++-
 src/parse.rs                  | 15 +++++++++++++++
 src/plugin/alias.rs           | 16 +++++++++++-----
 src/plugin/imports_field.rs   |  5 ++++-
 src/plugin/main_field.rs      | 29 ++++++++++++++++++++---------
 src/plugin/prefer_relative.rs |  2 +-
 src/utils.rs                  |  1 +
 7 files changed, 65 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c61238c..3c23490 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -72,7 +72,7 @@ use std::{
     sync::Arc,
 };
 
-use crate::utils::RAISE_RESOLVE_ERROR_TAG;
+use crate::utils::{RAISE_RESOLVE_ERROR_TAG, RECURSION_ERROR};
 
 #[derive(Default, Debug)]
 pub struct Resolver {
@@ -148,6 +148,15 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
+
+    /// The configuration refers to itself, nothing else should be tried.
+    pub fn is_recursion(&self) -> bool {
+        matches!(self, ResolverStats::Error((err, _)) if err == RECURSION_ERROR)
+    }
+
+    pub fn recursion(info: ResolveInfo) -> Self {
+        ResolverStats::Error((RECURSION_ERROR.to_string(), info))
+    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
@@ -201,6 +210,9 @@ impl Resolver {
         // }
         match result {
             ResolverStats::Success(result) => self.normalize_result(result),
+            ResolverStats::Error((err_msg, _)) if err_msg == RECURSION_ERROR => {
+                Err(format!("{err_msg} '{request}' in '{}'", path.display()))
+            }
             ResolverStats::Error((err_msg, _)) => Err(err_msg),
             _ => unreachable!(),
         }
diff --git a/src/parse.rs b/src/parse.rs
index a03f701..119a7bf 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -9,8 +9,13 @@ pub struct Request {
     pub query: SmolStr,
     pub fragment: SmolStr,
     pub(crate) kind: PathKind,
+    /// how often this request had been rewritten by a configuration
+    pub(crate) rewrites: usize,
 }
 
+/// A configuration that rewrites one request more often than this refers to itself.
+const MAX_REWRITES: usize = 32;
+
 impl std::fmt::Display for Request {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}{}{}", self.target, self.query, self.fragment)
@@ -24,9 +29,18 @@ impl Request {
             query: "".into(),
             fragment: "".into(),
             kind: PathKind::Relative,
+            rewrites: 0,
         }
     }
 
+    /// One rewriting after `from`, `None` if there were too many.
+    pub(crate) fn rewritten_from(self, from: &Request) -> Option<Self> {
+        (from.rewrites < MAX_REWRITES).then(|| Self {
+            rewrites: from.rewrites + 1,
+            ..self
+        })
+    }
+
     pub(crate) fn parse_identifier(ident: &str) -> (String, String, String) {
         // maybe we should use regexp: https://github.com/webpack/enhanced-resolve/blob/main/lib/util/identifier.js#L8
         let mut target = String::new();
@@ -83,6 +97,7 @@ impl Resolver {
             target: target.into(),
             query: query.into(),
             fragment: fragment.into(),
+            rewrites: 0,
         }
     }
 }
diff --git a/src/plugin/alias.rs b/src/plugin/alias.rs
index 316222f..36d3200 100644
--- a/src/plugin/alias.rs
+++ b/src/plugin/alias.rs
@@ -22,12 +22,18 @@ impl Plugin for AliasPlugin {
                             continue;
                         }
                         let normalized_target = inner_target.replacen(from, to, 1);
-                        let alias_info = ResolveInfo::from(
-                            info.path.to_path_buf(),
-                            info.request.clone().with_target(&normalized_target),
-                        );
+                        let request = match info
+                            .request
+                            .clone()
+                            .with_target(&normalized_target)
+                            .rewritten_from(&info.request)
+                        {
+                            Some(request) => request,
+                            None => return ResolverStats::recursion(info),
+                        };
+                        let alias_info = ResolveInfo::from(info.path.to_path_buf(), request);
                         let stats = resolver._resolve(alias_info);
-                        if stats.is_success() {
+                        if stats.is_success() || stats.is_recursion() {
                             return stats;
                         }
                     }
diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 06535a0..1d44c7b 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -44,7 +44,10 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
             };
 
             if let Some(item) = list.first() {
-                let request = resolver.parse(item);
+                let request = match resolver.parse(item).rewritten_from(&info.request) {
+                    Some(request) => request,
+                    None => return ResolverStats::recursion(info),
+                };
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
                 let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index 742f2ea..c0497c7 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -27,23 +27,34 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                     .get(&user_main_field)
                     .and_then(|value| value.as_str())
                 {
-                    if main_field == "." || main_field == "./" {
-                        // if it pointed to itself.
-                        break;
-                    }
-
-                    let main_field_info = if main_field.starts_with("./") {
-                        info.clone().with_target(main_field)
+                    let target = if main_field.starts_with("./") {
+                        main_field.to_string()
                     } else {
-                        info.clone().with_target(&format!("./{main_field}"))
+                        format!("./{main_field}")
                     };
+                    let request = match info
+                        .request
+                        .clone()
+                        .with_target(&target)
+                        .rewritten_from(&info.request)
+                    {
+                        Some(request) => request,
+                        None => return ResolverStats::recursion(info),
+                    };
+                    let main_field_info = ResolveInfo::from(info.path.to_path_buf(), request);
+                    if Resolver::normalize_path_without_link(&main_field_info.get_path())
+                        == Resolver::normalize_path_without_link(&info.path)
+                    {
+                        // if it pointed to itself.
+                        continue;
+                    }
 
                     let stats = AliasFieldPlugin::new(self.pkg_info)
                         .apply(resolver, main_field_info)
                         .and_then(|info| resolver.resolve_as_file(info))
                         .and_then(|info| resolver.resolve_as_dir(info));
 
-                    if stats.is_success() {
+                    if stats.is_success() || stats.is_recursion() {
                         return stats;
                     }
                 }
diff --git a/src/plugin/prefer_relative.rs b/src/plugin/prefer_relative.rs
index 36cad29..23842f3 100644
--- a/src/plugin/prefer_relative.rs
+++ b/src/plugin/prefer_relative.rs
@@ -17,7 +17,7 @@ impl Plugin for PreferRelativePlugin {
                 info.request.clone().with_target(&target),
             );
             let stats = resolver._resolve(info);
-            if stats.is_success() {
+            if stats.is_success() || stats.is_recursion() {
                 return stats;
             }
         }
diff --git a/src/utils.rs b/src/utils.rs
index c3f12d2..63a7823 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,6 +3,7 @@ use std::path::{Path, PathBuf};
 use crate::{ResolveInfo, Resolver};
 
 pub static RAISE_RESOLVE_ERROR_TAG: &str = "T0";
+pub static RECURSION_ERROR: &str = "Recursion in resolving";
 
 impl Resolver {
     pub(super) fn raise_tag() -> String {
-- 
2.43.0


From 22b70be929dfa8dd2f09d43ab1e67a7f81fb40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 24/36] fix: browser entries that lead back to themselves are
 followed once

---
 src/plugin/alias_field.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 425049d..19d1c20 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -14,21 +14,25 @@ impl<'a> AliasFieldPlugin<'a> {
         Self { pkg_info }
     }
 
+    /// Follows the entries from `key` on, until one leads back to where it came from.
     pub(super) fn deal_with_alias_fields_recursive(
         &self,
+        key: &String,
         target: &AliasMap,
         alias_fields: &HashMap<String, AliasMap>,
     ) -> AliasMap {
-        match target {
-            AliasMap::Target(target) => {
-                if let Some(next) = alias_fields.get(target) {
-                    self.deal_with_alias_fields_recursive(next, alias_fields)
-                } else {
-                    AliasMap::Target(target.clone())
+        let mut visited = vec![key];
+        let mut current = target;
+        while let AliasMap::Target(target) = current {
+            match alias_fields.get(target) {
+                Some(next) if !visited.contains(&target) => {
+                    visited.push(target);
+                    current = next;
                 }
+                _ => break,
             }
-            AliasMap::Ignored => AliasMap::Ignored,
         }
+        current.clone()
     }
 
     pub(super) fn request_target_is_module_and_equal_alias_key(
@@ -70,7 +74,7 @@ impl<'a> Plugin for AliasFieldPlugin<'a> {
                 };
                 if should_deal_alias {
                     return match self
-                        .deal_with_alias_fields_recursive(alias_target, &pkg_info.alias_fields)
+                        .deal_with_alias_fields_recursive(alias_key, alias_target, &pkg_info.alias_fields)
                     {
                         AliasMap::Target(converted) => ResolverStats::Resolving(
                             info.with_path(pkg_info.abs_dir_path.to_path_buf())
-- 
2.43.0


From 1b70566659e7466740e64535bbb7206bc029c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 25/36] fix: browser entries apply in the order they are
 written

---
 src/description.rs        | 6 +++---
 src/plugin/alias_field.rs | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index bb6d8c1..6b9eb57 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -1,6 +1,6 @@
 use crate::map::{ExportsField, Field, ImportsField, PathTreeNode};
 use crate::{AliasMap, RResult, Resolver};
-use std::collections::HashMap;
+use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -17,7 +17,7 @@ pub struct PkgFileInfo {
     pub abs_dir_path: PathBuf,
     pub name: Option<String>,
     pub version: Option<String>,
-    pub alias_fields: HashMap<String, AliasMap>,
+    pub alias_fields: IndexMap<String, AliasMap>,
     pub exports_field_tree: Option<Arc<PathTreeNode>>,
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
@@ -52,7 +52,7 @@ impl Resolver {
                     .map_err(|_| format!("Parse {} failed", file_path.display()))
             })?;
 
-        let mut alias_fields = HashMap::new();
+        let mut alias_fields = IndexMap::new();
 
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 19d1c20..0c3cfed 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,6 +1,7 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
 use std::sync::Arc;
-use std::{collections::HashMap, path::PathBuf};
+use indexmap::IndexMap;
+use std::path::PathBuf;
 
 use super::Plugin;
 use crate::{PathKind, ResolveInfo, ResolveResult, ResolverStats};
@@ -19,7 +20,7 @@ impl<'a> AliasFieldPlugin<'a> {
         &self,
         key: &String,
         target: &AliasMap,
-        alias_fields: &HashMap<String, AliasMap>,
+        alias_fields: &IndexMap<String, AliasMap>,
     ) -> AliasMap {
         let mut visited = vec![key];
         let mut current = target;
-- 
2.43.0


From c14cae98d94b351bfb8c8a9972fd69cd255b7d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 26/36] fix: tsconfig paths are tried in a fixed order, the
 most specific first

---
 src/tsconfig_path.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 7a43b55..e716adc 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -81,10 +81,16 @@ impl Resolver {
         } else {
             return vec![];
         };
-        paths
+        let mut entries = paths
             .as_ref()
             .map(|paths| Self::get_absolute_mapping_entries(&absolute_base_url, paths))
-            .unwrap_or_default()
+            .unwrap_or_default();
+        // exact patterns first, then the longest prefix
+        entries.sort_by_cached_key(|entry| {
+            let prefix = entry.pattern.find('*').unwrap_or(usize::MAX);
+            (std::cmp::Reverse(prefix), entry.pattern.clone())
+        });
+        entries
     }
 
     pub(super) fn _resolve_with_tsconfig(
-- 
2.43.0


From 7a34b44f6d0a3bd154a9c7bf3c17299f772f80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 27/36] fix: a tsconfig pattern matches any text, also none and
 not only ASCII

---
 src/tsconfig_path.rs | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index e716adc..b020723 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -49,24 +49,8 @@ impl Resolver {
     }
 
     fn match_star<'a>(pattern: &'a str, search: &'a str) -> Option<&'a str> {
-        if search.len() < pattern.len() {
-            return None;
-        }
-        if pattern == "*" {
-            return Some(search);
-        }
-        pattern.find(|c| c == '*').and_then(|star_index| {
-            let part1 = &pattern[..star_index];
-            let part2 = &pattern[star_index + 1..];
-            if &search[0..star_index] != part1 {
-                return None;
-            }
-            if &search[search.len() - part2.len()..] != part2 {
-                return None;
-            }
-            let len = search.len() - part2.len() - part1.len();
-            Some(&search[star_index..star_index + len])
-        })
+        let (prefix, suffix) = pattern.split_once('*')?;
+        search.strip_prefix(prefix)?.strip_suffix(suffix)
     }
 
     fn create_match_list(
-- 
2.43.0


From f435d91520aea6297facb30f14ddfe57a8544b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 28/36] fix: a request mapped by tsconfig paths keeps its query
 and fragment

---
 src/parse.rs         | 10 ----------
 src/tsconfig_path.rs |  5 +++--
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 119a7bf..6a25085 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -23,16 +23,6 @@ impl std::fmt::Display for Request {
 }
 
 impl Request {
-    pub(crate) fn empty() -> Self {
-        Self {
-            target: "".into(),
-            query: "".into(),
-            fragment: "".into(),
-            kind: PathKind::Relative,
-            rewrites: 0,
-        }
-    }
-
     /// One rewriting after `from`, `None` if there were too many.
     pub(crate) fn rewritten_from(self, from: &Request) -> Option<Self> {
         (from.rewrites < MAX_REWRITES).then(|| Self {
diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index b020723..1aa8160 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -1,7 +1,7 @@
 // Copy from https://github.com/dividab/tsconfig-paths
 
 use super::tsconfig::TsConfig;
-use crate::{parse::Request, RResult, ResolveInfo, Resolver, ResolverStats};
+use crate::{RResult, ResolveInfo, Resolver, ResolverStats};
 use std::{
     collections::HashMap,
     path::{Path, PathBuf},
@@ -106,7 +106,8 @@ impl Resolver {
                     .replace('*', star_match);
 
                 let path = PathBuf::from(physical_path);
-                let result = self._resolve(ResolveInfo::from(path, Request::empty()));
+                let request = info.request.clone().with_target("");
+                let result = self._resolve(ResolveInfo::from(path, request));
                 if result.is_success() {
                     return result;
                 }
-- 
2.43.0


From 2796f417c1f0fdd0c20ab960c1e5162377e92e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 29/36] fix: unexpected values in a tsconfig are errors, not
 panics

---
 src/tsconfig.rs      | 63 ++++++++++++++++++++++++++++----------------
 src/tsconfig_path.rs |  2 +-
 2 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 04901bf..1bb31d5 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -20,28 +20,29 @@ pub struct CompilerOptions {
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
         let json = parse_file_to_value(location, resolver)?;
-        let compiler_options = json.get("compilerOptions").map(|options| {
-            // TODO: should optimized
-            let base_url = options
-                .get("baseUrl")
-                .map(|v| v.as_str().unwrap().to_string());
-            let paths = options.get("paths").map(|v| {
-                let mut map = HashMap::new();
-                // TODO: should optimized
-                for (key, obj) in v.as_object().unwrap() {
-                    map.insert(
-                        key.to_string(),
-                        obj.as_array()
-                            .unwrap()
-                            .iter()
-                            .map(|v| v.as_str().unwrap().to_string())
-                            .collect(),
-                    );
-                }
-                map
-            });
-            CompilerOptions { base_url, paths }
-        });
+        let unexpected = |name: &str, value: &serde_json::Value| {
+            format!(
+                "{name} in {} had unexpected value {value}",
+                location.display()
+            )
+        };
+        let compiler_options = match json.get("compilerOptions") {
+            Some(options) => {
+                let base_url = match options.get("baseUrl") {
+                    Some(serde_json::Value::String(s)) => Some(s.to_string()),
+                    Some(value) => return Err(unexpected("baseUrl", value)),
+                    None => None,
+                };
+                let paths = match options.get("paths") {
+                    Some(value) => {
+                        Some(parse_paths(value).ok_or_else(|| unexpected("paths", value))?)
+                    }
+                    None => None,
+                };
+                Some(CompilerOptions { base_url, paths })
+            }
+            None => None,
+        };
         let extends: Option<String> = json.get("extends").map(|v| v.to_string());
         Ok(TsConfig {
             extends,
@@ -50,12 +51,28 @@ impl TsConfig {
     }
 }
 
+fn parse_paths(value: &serde_json::Value) -> Option<HashMap<String, Vec<String>>> {
+    // TODO: should optimized
+    value
+        .as_object()?
+        .iter()
+        .map(|(key, list)| {
+            let list = list
+                .as_array()?
+                .iter()
+                .map(|v| v.as_str().map(String::from))
+                .collect::<Option<Vec<_>>>()?;
+            Some((key.to_string(), list))
+        })
+        .collect()
+}
+
 fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_json::Value> {
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-        .unwrap_or_else(|| panic!("Transfer {} to serde value failed", location.display()));
+        .ok_or_else(|| format!("Parse {} failed. Error: no value", location.display()))?;
 
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 1aa8160..53ddd5d 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -58,7 +58,7 @@ impl Resolver {
         base_url: &Option<String>,
         paths: &Option<HashMap<String, Vec<String>>>,
     ) -> Vec<MappingEntry> {
-        let location_dir = location.parent().unwrap();
+        let location_dir = location.parent().unwrap_or(location);
 
         let absolute_base_url = if let Some(base_url) = base_url.as_ref() {
             location_dir.join(base_url)
-- 
2.43.0


From fedf97d28abd6c25092c8461bac65ee65111d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 30/36] fix: a tsconfig that extends itself is an error

---
 src/tsconfig.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 1bb31d5..0d781c3 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -3,7 +3,7 @@
 use crate::{RResult, ResolveInfo, ResolveResult, Resolver, ResolverStats};
 use std::collections::HashMap;
 use std::fs::read_to_string;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 #[derive(Debug, Clone)]
 pub struct TsConfig {
@@ -19,7 +19,7 @@ pub struct CompilerOptions {
 
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
-        let json = parse_file_to_value(location, resolver)?;
+        let json = parse_file_to_value(location, resolver, &mut vec![])?;
         let unexpected = |name: &str, value: &serde_json::Value| {
             format!(
                 "{name} in {} had unexpected value {value}",
@@ -67,7 +67,20 @@ fn parse_paths(value: &serde_json::Value) -> Option<HashMap<String, Vec<String>>
         .collect()
 }
 
-fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_json::Value> {
+/// `extended_by` are the files whose `extends` lead to `location`.
+fn parse_file_to_value(
+    location: &Path,
+    resolver: &Resolver,
+    extended_by: &mut Vec<PathBuf>,
+) -> RResult<serde_json::Value> {
+    let real_location = location
+        .canonicalize()
+        .map_err(|_| format!("Open {} failed", location.display()))?;
+    if extended_by.contains(&real_location) {
+        return Err(format!("{} extends itself", location.display()));
+    }
+    extended_by.push(real_location);
+
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
@@ -82,7 +95,9 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         // Is it better to use cache?
         if let ResolverStats::Success(result) = stats {
             let extends_tsconfig_json = match result {
-                ResolveResult::Info(info) => parse_file_to_value(&info.get_path(), resolver),
+                ResolveResult::Info(info) => {
+                    parse_file_to_value(&info.get_path(), resolver, extended_by)
+                }
                 ResolveResult::Ignored => {
                     return Err(format!("{s} had been ignored in {}", location.display()))
                 }
-- 
2.43.0


From eff2d8569812d921f6e3897206241d64ce115222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 31/36] fix: the browser map of the requesting package applies
 to an installed package

---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3c23490..b153654 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -234,9 +234,19 @@ impl Resolver {
                     Ok(pkg_info_wrap) => pkg_info_wrap,
                     Err(error) => return ResolverStats::Error((error, info)),
                 };
+                // the browser map of the package that contains the request applies
+                let issuer_pkg_info =
+                    if self.options.browser_field && info.request.kind.eq(&PathKind::Normal) {
+                        match self.load_pkg_file(&info.path) {
+                            Ok(pkg_info) => pkg_info,
+                            Err(error) => return ResolverStats::Error((error, info)),
+                        }
+                    } else {
+                        pkg_info_wrap.clone()
+                    };
                 ImportsFieldPlugin::new(&pkg_info_wrap)
                     .apply(self, info)
-                    .and_then(|info| AliasFieldPlugin::new(&pkg_info_wrap).apply(self, info))
+                    .and_then(|info| AliasFieldPlugin::new(&issuer_pkg_info).apply(self, info))
                     .and_then(|info| self.resolve_self(&pkg_info_wrap, info))
             })
             .and_then(|info| {
-- 
2.43.0


From fde0edf2bd4637cc8c0fdd79622d0f40cb602f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 32/36] fix: a request path is normalised before it is looked
 up

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b153654..bf36c2a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -100,7 +100,13 @@ impl ResolveInfo {
         if self.request.target.is_empty() || self.request.target == "." {
             self.path.to_path_buf()
         } else {
-            self.path.join(&*self.request.target)
+            let target = &*self.request.target;
+            let mut path = Resolver::normalize_path_without_link(&self.path.join(target));
+            if matches!(target.rsplit('/').next(), Some("" | "." | "..")) {
+                // still only a directory
+                path.push("");
+            }
+            path
         }
     }
 
-- 
2.43.0


From 81871b750e8f901ba3b9d75ba82c9dcd8ae8bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 33/36] fix: long requests and deep directories do not exhaust
 the stack

---
 src/description.rs | 10 ++++------
 src/resolve.rs     | 32 +++++++++++++++++---------------
 src/utils.rs       | 12 ++++--------
 3 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 6b9eb57..69d2f39 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -167,12 +167,10 @@ impl Resolver {
         }
         // Because the key in `self.cache.file_dir_to_pkg_info` represents directory.
         // So this step is ensure `path` pointed to directory.
-        if !path.is_dir() {
-            return match path.parent() {
-                Some(dir) => self.load_pkg_file(dir),
-                None => Ok(None),
-            };
-        }
+        let path = match path.ancestors().find(|dir| dir.is_dir()) {
+            Some(dir) => dir,
+            None => return Ok(None),
+        };
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
diff --git a/src/resolve.rs b/src/resolve.rs
index 59f53a6..98065eb 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -44,8 +44,23 @@ impl Resolver {
     #[tracing::instrument]
     pub(crate) fn resolve_as_modules(&self, info: ResolveInfo) -> ResolverStats {
         let original_dir = info.path.clone();
-        let module_root_path = original_dir.join(MODULE);
-        let stats = if module_root_path.is_dir() {
+        let stats = original_dir
+            .ancestors()
+            .fold(ResolverStats::Resolving(info), |stats, dir| {
+                stats.and_then(|info| self.resolve_in_modules(info.with_path(dir.to_path_buf())))
+            });
+
+        match stats {
+            ResolverStats::Success(success) => ResolverStats::Success(success),
+            ResolverStats::Resolving(info) => ResolverStats::Error((Resolver::raise_tag(), info)),
+            ResolverStats::Error(err) => ResolverStats::Error(err),
+        }
+    }
+
+    /// Only the modules directory next to `info.path`.
+    fn resolve_in_modules(&self, info: ResolveInfo) -> ResolverStats {
+        let module_root_path = info.path.join(MODULE);
+        if module_root_path.is_dir() {
             let target = &info.request.target;
             // join request part
             let has_namespace_scope = target.starts_with('@');
@@ -111,18 +126,5 @@ impl Resolver {
         } else {
             ResolverStats::Resolving(info)
         }
-        .and_then(|info| {
-            if let Some(parent_dir) = original_dir.parent() {
-                self.resolve_as_modules(info.with_path(parent_dir.to_path_buf()))
-            } else {
-                ResolverStats::Resolving(info)
-            }
-        });
-
-        match stats {
-            ResolverStats::Success(success) => ResolverStats::Success(success),
-            ResolverStats::Resolving(info) => ResolverStats::Error((Resolver::raise_tag(), info)),
-            ResolverStats::Error(err) => ResolverStats::Error(err),
-        }
     }
 }
diff --git a/src/utils.rs b/src/utils.rs
index 63a7823..0121d34 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -19,13 +19,9 @@ impl Resolver {
     }
 
     pub(super) fn find_up(now_dir: &Path, file_name: &str) -> Option<PathBuf> {
-        let path = now_dir.join(file_name);
-        if path.is_file() {
-            Some(now_dir.to_path_buf())
-        } else {
-            now_dir
-                .parent()
-                .and_then(|parent| Self::find_up(parent, file_name))
-        }
+        now_dir
+            .ancestors()
+            .find(|dir| dir.join(file_name).is_file())
+            .map(Path::to_path_buf)
     }
 }
-- 
2.43.0


From 1b6e800eca33d56fe0f98b73b66e1688ea6ef315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 34/36] fix: a request mapped by an imports map keeps its query
 and fragment

---
 src/plugin/imports_field.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 1d44c7b..9f93023 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -44,10 +44,14 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
             };
 
             if let Some(item) = list.first() {
-                let request = match resolver.parse(item).rewritten_from(&info.request) {
+                let mut request = match resolver.parse(item).rewritten_from(&info.request) {
                     Some(request) => request,
                     None => return ResolverStats::recursion(info),
                 };
+                if request.query.is_empty() && request.fragment.is_empty() {
+                    request.query = info.request.query.clone();
+                    request.fragment = info.request.fragment.clone();
+                }
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
                 let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
-- 
2.43.0


From 9299613bd76d21b44fcd140f15d575df883aae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 35/36] fix: a wildcard that is substituted into itself does
 not grow without bound

---
 src/parse.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6a25085..e8581c9 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -16,6 +16,9 @@ pub struct Request {
 /// A configuration that rewrites one request more often than this refers to itself.
 const MAX_REWRITES: usize = 32;
 
+/// A wildcard that is substituted into itself grows the request: no path is longer than this.
+const MAX_REWRITTEN_LEN: usize = 16384;
+
 impl std::fmt::Display for Request {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}{}{}", self.target, self.query, self.fragment)
@@ -23,9 +26,10 @@ impl std::fmt::Display for Request {
 }
 
 impl Request {
-    /// One rewriting after `from`, `None` if there were too many.
+    /// One rewriting after `from`, `None` if there were too many or it grew without end.
     pub(crate) fn rewritten_from(self, from: &Request) -> Option<Self> {
-        (from.rewrites < MAX_REWRITES).then(|| Self {
+        let too_long = self.target.len() > from.target.len().max(MAX_REWRITTEN_LEN);
+        (from.rewrites < MAX_REWRITES && !too_long).then(|| Self {
             rewrites: from.rewrites + 1,
             ..self
         })
-- 
2.43.0


From 05fdda28fb3dc51aa9c77f897e387ad84d913d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 36/36] fix: a path mapped by tsconfig paths is normalised
 before it is looked up

---
 src/tsconfig_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 53ddd5d..255cad8 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -105,7 +105,7 @@ impl Resolver {
                     .to_string()
                     .replace('*', star_match);
 
-                let path = PathBuf::from(physical_path);
+                let path = Self::normalize_path_without_link(Path::new(physical_path));
                 let request = info.request.clone().with_target("");
                 let result = self._resolve(ResolveInfo::from(path, request));
                 if result.is_success() {
-- 
2.43.0

