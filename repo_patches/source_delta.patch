From 4fb0b1d8087f38503b7e0ecd8db234865c027de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 001/106] hooks: model-checker instrumentation behind
 cfg(rxw_mc)

---
 src/lib.rs            |   4 +
 src/mc_hooks.rs       | 216 ++++++++++++++++++++++++++++++++++++++++++
 src/packager.rs       |  12 ++-
 src/shared_strings.rs |   6 +-
 src/workbook.rs       |   6 +-
 src/worksheet.rs      |   6 +-
 6 files changed, 246 insertions(+), 4 deletions(-)
 create mode 100644 src/mc_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 4db9644..93e0a3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,7 @@
 
 #![doc(html_logo_url = "https://rustxlsxwriter.github.io/images/rust_xlsxwriter_logo.png")]
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)] // For the `rxw_mc` instrumentation cfg.
 
 //! `rust_xlsxwriter` is a Rust library for writing Excel files in the xlsx
 //! format.
@@ -248,6 +249,9 @@ pub mod chart;
 pub mod conditional_format;
 pub mod cookbook;
 pub mod macros;
+#[cfg(rxw_mc)]
+#[doc(hidden)]
+pub mod mc_hooks;
 pub mod performance;
 pub mod sparkline;
 pub mod tutorial;
diff --git a/src/mc_hooks.rs b/src/mc_hooks.rs
new file mode 100644
index 0000000..1901401
--- /dev/null
+++ b/src/mc_hooks.rs
@@ -0,0 +1,216 @@
+// mc_hooks - Instrumentation points for an external model checker.
+//
+// SPDX-License-Identifier: MIT OR Apache-2.0
+//
+// This module is only compiled with `RUSTFLAGS="--cfg rxw_mc"`. It provides
+// drop-in stand-ins for the synchronization primitives used by the library which
+// report their operations to a `Scheduler`, if one is installed. Without an
+// installed scheduler (or without the cfg flag) the behavior is unchanged.
+
+#![allow(missing_docs)]
+
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+use std::sync::{LockResult, OnceLock, TryLockError, TryLockResult};
+
+/// A scheduler controlling the order of the synchronization operations.
+pub trait Scheduler: Send + Sync {
+    /// Called before a lock is acquired. May block until the lock is free and
+    /// the calling thread is scheduled.
+    fn before_acquire(&self, lock: usize, is_write: bool);
+
+    /// Called after a lock is released.
+    fn after_release(&self, lock: usize, is_write: bool);
+
+    /// Called when a parallel task starts. May block until it is its turn.
+    fn task_start(&self, name: &str);
+
+    /// Called when a parallel task ends.
+    fn task_end(&self, name: &str);
+}
+
+static SCHEDULER: OnceLock<Box<dyn Scheduler>> = OnceLock::new();
+static NEXT_LOCK: AtomicUsize = AtomicUsize::new(1);
+static STORE_ONLY: AtomicBool = AtomicBool::new(false);
+
+/// Install the scheduler. It can only be set once per process.
+pub fn install_scheduler(scheduler: Box<dyn Scheduler>) {
+    let _ = SCHEDULER.set(scheduler);
+}
+
+/// Store the xml files in the xlsx container instead of compressing them.
+pub fn set_store_only(enable: bool) {
+    STORE_ONLY.store(enable, Ordering::SeqCst);
+}
+
+pub(crate) fn zip_options(
+    zip_options: zip::write::SimpleFileOptions,
+) -> zip::write::SimpleFileOptions {
+    if STORE_ONLY.load(Ordering::Relaxed) {
+        zip_options.compression_method(zip::CompressionMethod::Stored)
+    } else {
+        zip_options
+    }
+}
+
+fn before_acquire(lock: usize, is_write: bool) {
+    if let Some(scheduler) = SCHEDULER.get() {
+        scheduler.before_acquire(lock, is_write);
+    }
+}
+
+fn after_release(lock: usize, is_write: bool) {
+    if let Some(scheduler) = SCHEDULER.get() {
+        scheduler.after_release(lock, is_write);
+    }
+}
+
+// Report the release when the guard is dropped. The fields are dropped in
+// declaration order so the release is reported after the inner guard is gone.
+struct Release(usize, bool);
+
+impl Drop for Release {
+    fn drop(&mut self) {
+        after_release(self.0, self.1);
+    }
+}
+
+pub struct Guard<G> {
+    inner: G,
+    _release: Release,
+}
+
+impl<G: Deref> Deref for Guard<G> {
+    type Target = G::Target;
+    fn deref(&self) -> &G::Target {
+        &self.inner
+    }
+}
+
+impl<G: DerefMut> DerefMut for Guard<G> {
+    fn deref_mut(&mut self) -> &mut G::Target {
+        &mut self.inner
+    }
+}
+
+/// A marker for the duration of a parallel task.
+pub(crate) struct Task(String);
+
+impl Task {
+    pub(crate) fn start(name: &str) -> Task {
+        if let Some(scheduler) = SCHEDULER.get() {
+            scheduler.task_start(name);
+        }
+        Task(name.to_string())
+    }
+}
+
+impl Drop for Task {
+    fn drop(&mut self) {
+        if let Some(scheduler) = SCHEDULER.get() {
+            scheduler.task_end(&self.0);
+        }
+    }
+}
+
+fn wrap<G>(id: usize, is_write: bool, result: LockResult<G>) -> LockResult<Guard<G>> {
+    match result {
+        Ok(inner) => Ok(Guard {
+            inner,
+            _release: Release(id, is_write),
+        }),
+        Err(err) => Err(std::sync::PoisonError::new(Guard {
+            inner: err.into_inner(),
+            _release: Release(id, is_write),
+        })),
+    }
+}
+
+fn try_wrap<G>(id: usize, is_write: bool, result: TryLockResult<G>) -> TryLockResult<Guard<G>> {
+    match result {
+        Ok(inner) => Ok(Guard {
+            inner,
+            _release: Release(id, is_write),
+        }),
+        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        Err(TryLockError::Poisoned(err)) => {
+            Err(TryLockError::Poisoned(std::sync::PoisonError::new(Guard {
+                inner: err.into_inner(),
+                _release: Release(id, is_write),
+            })))
+        }
+    }
+}
+
+#[derive(Debug)]
+pub struct Mutex<T> {
+    id: usize,
+    inner: std::sync::Mutex<T>,
+}
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Mutex<T> {
+        Mutex {
+            id: NEXT_LOCK.fetch_add(1, Ordering::Relaxed),
+            inner: std::sync::Mutex::new(value),
+        }
+    }
+
+    pub fn lock(&self) -> LockResult<Guard<std::sync::MutexGuard<'_, T>>> {
+        before_acquire(self.id, true);
+        wrap(self.id, true, self.inner.lock())
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<Guard<std::sync::MutexGuard<'_, T>>> {
+        try_wrap(self.id, true, self.inner.try_lock())
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
+
+#[derive(Debug)]
+pub struct RwLock<T> {
+    id: usize,
+    inner: std::sync::RwLock<T>,
+}
+
+impl<T> RwLock<T> {
+    pub fn new(value: T) -> RwLock<T> {
+        RwLock {
+            id: NEXT_LOCK.fetch_add(1, Ordering::Relaxed),
+            inner: std::sync::RwLock::new(value),
+        }
+    }
+
+    pub fn read(&self) -> LockResult<Guard<std::sync::RwLockReadGuard<'_, T>>> {
+        before_acquire(self.id, false);
+        wrap(self.id, false, self.inner.read())
+    }
+
+    pub fn write(&self) -> LockResult<Guard<std::sync::RwLockWriteGuard<'_, T>>> {
+        before_acquire(self.id, true);
+        wrap(self.id, true, self.inner.write())
+    }
+
+    pub fn try_read(&self) -> TryLockResult<Guard<std::sync::RwLockReadGuard<'_, T>>> {
+        try_wrap(self.id, false, self.inner.try_read())
+    }
+
+    pub fn try_write(&self) -> TryLockResult<Guard<std::sync::RwLockWriteGuard<'_, T>>> {
+        try_wrap(self.id, true, self.inner.try_write())
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
diff --git a/src/packager.rs b/src/packager.rs
index bdda890..f96eeb7 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -46,7 +46,11 @@ use std::io::{Seek, Write};
 #[cfg(feature = "constant_memory")]
 use std::io::{BufRead, BufReader};
 
-use std::sync::{Arc, Mutex};
+#[cfg(rxw_mc)]
+use crate::mc_hooks::Mutex;
+use std::sync::Arc;
+#[cfg(not(rxw_mc))]
+use std::sync::Mutex;
 #[cfg(not(target_arch = "wasm32"))]
 use std::thread;
 
@@ -96,6 +100,9 @@ impl<W: Write + Seek + Send> Packager<W> {
             .last_modified_time(DateTime::default())
             .large_file(use_large_file);
 
+        #[cfg(rxw_mc)]
+        let zip_options = crate::mc_hooks::zip_options(zip_options);
+
         let zip_options_for_binary_files =
             zip_options.compression_method(zip::CompressionMethod::Stored);
 
@@ -129,6 +136,9 @@ impl<W: Write + Seek + Send> Packager<W> {
             for worksheet in &mut workbook.worksheets {
                 if !worksheet.use_constant_memory {
                     scope.spawn(|| {
+                        #[cfg(rxw_mc)]
+                        let _task = crate::mc_hooks::Task::start(&worksheet.name);
+
                         worksheet.assemble_xml_file();
                     });
                 }
diff --git a/src/shared_strings.rs b/src/shared_strings.rs
index a05b29c..cfa6840 100644
--- a/src/shared_strings.rs
+++ b/src/shared_strings.rs
@@ -7,7 +7,11 @@
 mod tests;
 
 use std::io::Cursor;
-use std::sync::{Arc, Mutex};
+#[cfg(rxw_mc)]
+use crate::mc_hooks::Mutex;
+use std::sync::Arc;
+#[cfg(not(rxw_mc))]
+use std::sync::Mutex;
 
 use crate::shared_strings_table::SharedStringsTable;
 
diff --git a/src/workbook.rs b/src/workbook.rs
index 3d40929..7807edd 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -221,7 +221,11 @@ use std::collections::{HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, Cursor, Read, Seek, Write};
 use std::path::Path;
-use std::sync::{Arc, Mutex, RwLock};
+#[cfg(rxw_mc)]
+use crate::mc_hooks::{Mutex, RwLock};
+use std::sync::Arc;
+#[cfg(not(rxw_mc))]
+use std::sync::{Mutex, RwLock};
 
 #[cfg(feature = "constant_memory")]
 use tempfile::tempfile_in;
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 56fdda5..f4aad9c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1353,7 +1353,11 @@ use std::collections::{BTreeMap, HashMap, HashSet};
 use std::io::Cursor;
 use std::io::Write;
 use std::mem;
-use std::sync::{Arc, Mutex, RwLock};
+#[cfg(rxw_mc)]
+use crate::mc_hooks::{Mutex, RwLock};
+use std::sync::Arc;
+#[cfg(not(rxw_mc))]
+use std::sync::{Mutex, RwLock};
 use std::{cmp, fmt};
 
 #[cfg(feature = "constant_memory")]
-- 
2.43.0


From 958bda15c01324a4fabf734704b9363bf7ed7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 002/106] fix: keep the cell format of formulas with dynamic
 functions

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f4aad9c..1c7b84e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15172,7 +15172,7 @@ impl Worksheet {
     ) -> Result<&mut Worksheet, XlsxError> {
         // Transfer to dynamic formula handling function.
         if formula.has_dynamic_function {
-            return self.store_array_formula(row, col, row, col, formula, None, true);
+            return self.store_array_formula(row, col, row, col, formula, format, true);
         }
 
         // Check row and col are in the allowed range.
-- 
2.43.0


From 5bc00b2237fc139b42cf1275ad8540c0dd21f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 003/106] fix: include the cells of set_range_format() in the
 worksheet dimensions

---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1c7b84e..71ed975 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10357,6 +10357,10 @@ impl Worksheet {
         // Get the index of the format object.
         let xf_index = self.format_xf_index(format);
 
+        // The formatted cells are part of the worksheet cell range.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Insert the format in a new or existing cells.
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-- 
2.43.0


From 23d461392be854355da738ba608c72e43d3ac385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 004/106] fix: don't overwrite the index of a format added by
 another thread

---
 src/workbook.rs  | 6 ++++--
 src/worksheet.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 7807edd..046c400 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2532,11 +2532,13 @@ impl Workbook {
         drop(xf_indices);
 
         // Add the new format and give it an index.
+        //
+        // The format may have been added by another thread between the two
+        // locks so check again to avoid overwriting its index.
         let mut xf_indices = self.xf_indices.write().expect("RwLock poisoned");
         let xf_index = xf_indices.len() as u32;
-        xf_indices.insert(format.clone(), xf_index);
 
-        xf_index
+        *xf_indices.entry(format.clone()).or_insert(xf_index)
     }
 
     fn format_dxf_index(&mut self, format: &Format) -> u32 {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 71ed975..343f486 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16014,11 +16014,13 @@ impl Worksheet {
         drop(xf_indices);
 
         // Add the new format and give it an index.
+        //
+        // The format may have been added by another thread between the two
+        // locks so check again to avoid overwriting its index.
         let mut xf_indices = self.workbook_xf_indices.write().expect("RwLock poisoned");
         let xf_index = xf_indices.len() as u32;
-        xf_indices.insert(format.clone(), xf_index);
 
-        xf_index
+        *xf_indices.entry(format.clone()).or_insert(xf_index)
     }
 
     // Look up the Format index from the worksheet/local format index table.
-- 
2.43.0


From 3102d3f91424ec24bc0e9d22d6e1326f38054d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 005/106] fix: write the sheetPr child elements in the schema
 order

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 343f486..57158e2 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17618,15 +17618,15 @@ impl Worksheet {
         {
             xml_start_tag(&mut self.writer, "sheetPr", &attributes);
 
-            // Write the pageSetUpPr element.
-            self.write_page_set_up_pr();
-
             // Write the tabColor element.
             self.write_tab_color();
 
             // Write the outlinePr element.
             self.write_outline_pr();
 
+            // Write the pageSetUpPr element.
+            self.write_page_set_up_pr();
+
             xml_end_tag(&mut self.writer, "sheetPr");
         } else {
             xml_empty_tag(&mut self.writer, "sheetPr", &attributes);
-- 
2.43.0


From c3f5246f655b208429626e8ed677d1625bb514a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 006/106] fix: write the note authors in the order of their ids

---
 src/packager.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/packager.rs b/src/packager.rs
index f96eeb7..c58fa5d 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -907,7 +907,15 @@ impl<W: Write + Seek + Send> Packager<W> {
 
                 let mut comment = Comment::new();
                 comment.notes = worksheet.notes.clone();
-                comment.note_authors = worksheet.note_authors.keys().cloned().collect();
+
+                // Store the authors in the order of their ids.
+                let mut note_authors: Vec<_> = worksheet.note_authors.iter().collect();
+                note_authors.sort_by_key(|(_, id)| **id);
+                comment.note_authors = note_authors
+                    .into_iter()
+                    .map(|(author, _)| author.clone())
+                    .collect();
+
 
                 comment.assemble_xml_file();
 
-- 
2.43.0


From 6a0cadd88bb6218fcecf4ef9d73f2fb4717d509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 007/106] fix: write the reverse and icon only properties of
 x14 icon sets

---
 src/conditional_format.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 3fa5a8a..7b50576 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6164,6 +6164,14 @@ impl ConditionalFormatIconSet {
             attributes.push(("iconSet", self.icon_type.to_string()));
         }
 
+        if self.icon_only {
+            attributes.push(("showValue", "0".to_string()));
+        }
+
+        if self.is_reversed {
+            attributes.push(("reverse", "1".to_string()));
+        }
+
         if self.has_custom_icons {
             attributes.push(("custom", "1".to_string()));
         }
-- 
2.43.0


From e5ec63349c6d713b7f4daf2526f96c916732f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 008/106] fix: close each worksheet ext element

---
 src/worksheet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 57158e2..876dfc7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19692,6 +19692,8 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_conditional_formattings();
+
+            xml_end_tag(&mut self.writer, "ext");
         }
 
         // Write the x14:sparklineGroups element.
@@ -19705,9 +19707,9 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_sparkline_groups();
-        }
 
-        xml_end_tag(&mut self.writer, "ext");
+            xml_end_tag(&mut self.writer, "ext");
+        }
 
         xml_end_tag(&mut self.writer, "extLst");
     }
-- 
2.43.0


From 280488f0fa1508291e41d22c334cecdf8b038e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 009/106] fix: match the ids and priorities of x14 conditional
 formats

---
 src/worksheet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 876dfc7..121221d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17981,12 +17981,17 @@ impl Worksheet {
         let mut guid_index = 1;
         let mut priority = 1;
 
-        for (cell_range, conditionals_for_range) in &self.conditional_formats {
+        // Use the same order as the standard conditional formats so that the
+        // rules have the same ids and priorities.
+        for cell_range in &self.conditional_format_order {
+            let conditionals_for_range = self.conditional_formats.get(cell_range).unwrap();
+
             // Only create an entry if range contains a x14 style conditional.
             if !conditionals_for_range
                 .iter()
                 .any(|rule| rule.has_x14_extensions())
             {
+                priority += conditionals_for_range.len() as u32;
                 continue;
             }
 
-- 
2.43.0


From fbe3a022e5207c6712b37406555c3c4774fa38a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 010/106] fix: number header and footer images after all
 earlier images

The media file names are numbered in package order: the embedded images
and then the images of each worksheet. The header and footer images were
numbered without the embedded images and the images of later and earlier
headers, so their relationships could target another image.
---
 src/workbook.rs  | 7 ++-----
 src/worksheet.rs | 8 ++++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 046c400..fcbae50 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2343,11 +2343,8 @@ impl Workbook {
             }
 
             if worksheet.has_header_footer_images() {
-                // The header/footer images are counted from the last worksheet id.
-                let base_image_id =
-                    background_image_ids.len() as u32 + worksheet_image_ids.len() as u32;
-
-                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, base_image_id);
+                worksheet
+                    .prepare_header_footer_images(&mut header_footer_image_ids, &mut image_id);
             }
         }
     }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 121221d..b3f00b2 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16335,16 +16335,16 @@ impl Worksheet {
     pub(crate) fn prepare_header_footer_images(
         &mut self,
         image_ids: &mut HashMap<String, u32>,
-        base_image_id: u32,
+        image_id: &mut u32,
     ) {
         let mut rel_ids: HashMap<String, u32> = HashMap::new();
         for image in self.header_footer_images.clone().into_iter().flatten() {
             let image_id = match image_ids.get(&image.hash) {
                 Some(image_id) => *image_id,
                 None => {
-                    let image_id = 1 + base_image_id + image_ids.len() as u32;
-                    image_ids.insert(image.hash.clone(), image_id);
-                    image_id
+                    *image_id += 1;
+                    image_ids.insert(image.hash.clone(), *image_id);
+                    *image_id
                 }
             };
 
-- 
2.43.0


From d20a8c8cfb4d08a48b98348ed999f8818c1262b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 011/106] fix: write a value for each key of an embedded image

If only some of the embedded images have alt text the rich values of the
others had fewer values than the keys of the rich value structure.
---
 src/packager.rs   | 9 +++++++--
 src/rich_value.rs | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index c58fa5d..48866dd 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -814,7 +814,7 @@ impl<W: Write + Seek + Send> Packager<W> {
         workbook: &Workbook,
         options: &PackagerOptions,
     ) -> Result<(), XlsxError> {
-        self.write_rich_value_file(workbook)?;
+        self.write_rich_value_file(workbook, options)?;
         self.write_rich_value_types_file()?;
         self.write_rich_value_structure_file(options)?;
         self.write_rich_value_rel_file(options)?;
@@ -823,8 +823,13 @@ impl<W: Write + Seek + Send> Packager<W> {
     }
 
     // Write the rdrichvalue.xml file.
-    fn write_rich_value_file(&mut self, workbook: &Workbook) -> Result<(), XlsxError> {
+    fn write_rich_value_file(
+        &mut self,
+        workbook: &Workbook,
+        options: &PackagerOptions,
+    ) -> Result<(), XlsxError> {
         let mut rich_value = RichValue::new(&workbook.embedded_images);
+        rich_value.has_embedded_image_descriptions = options.has_embedded_image_descriptions;
 
         self.zip
             .start_file("xl/richData/rdrichvalue.xml", self.zip_options)?;
diff --git a/src/rich_value.rs b/src/rich_value.rs
index 57c2e94..5b8db9d 100644
--- a/src/rich_value.rs
+++ b/src/rich_value.rs
@@ -13,6 +13,7 @@ use crate::xmlwriter::{xml_data_element_only, xml_declaration, xml_end_tag, xml_
 pub struct RichValue<'a> {
     pub(crate) writer: Cursor<Vec<u8>>,
     pub(crate) embedded_images: &'a Vec<Image>,
+    pub(crate) has_embedded_image_descriptions: bool,
 }
 
 impl RichValue<'_> {
@@ -27,6 +28,7 @@ impl RichValue<'_> {
         RichValue {
             writer,
             embedded_images,
+            has_embedded_image_descriptions: false,
         }
     }
 
@@ -78,7 +80,8 @@ impl RichValue<'_> {
         self.write_v(&index.to_string());
         self.write_v(value);
 
-        if !image.alt_text.is_empty() {
+        // The values must match the keys in the rich value structure.
+        if self.has_embedded_image_descriptions {
             self.write_v(&image.alt_text);
         }
 
-- 
2.43.0


From 59e469dd4a65df762f5b49b2fb4534df93774cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 012/106] fix: number the hyperlink of a shape after all
 earlier drawing relationships

All of the charts of a worksheet were counted as one, so a shape hyperlink
in a worksheet with two or more charts had the id of a chart.
---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b3f00b2..e7b6e10 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16286,7 +16286,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
-- 
2.43.0


From fee1ef27739a918ce14e31f7ae9152156edcf493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 013/106] fix: keep object hyperlinks that differ only in the
 anchor apart

The drawing relationships were shared by the link without the anchor.
---
 src/worksheet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e7b6e10..2fdd195 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16192,11 +16192,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_rel_ids.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
@@ -16283,11 +16283,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_relationships.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
-- 
2.43.0


From 3de3f8ef6c8581c71a8379d211ed65995de95ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 014/106] fix: keep the anchor of a shape hyperlink

---
 src/shape.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shape.rs b/src/shape.rs
index 87282ac..37d44c9 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -560,6 +560,7 @@ impl Shape {
     ///
     pub fn set_url(mut self, link: impl Into<Url>) -> Result<Shape, XlsxError> {
         let mut url = link.into();
+        url.is_object_link = true;
         url.initialize()?;
 
         self.url = Some(url);
-- 
2.43.0


From 9690d108fcd555aa21a8f35dc23aadfc5e5224ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 015/106] fix: keep the format of table columns when a workbook
 is saved again

The local format index was replaced by the workbook index on each save.
---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2fdd195..55914c1 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16553,7 +16553,11 @@ impl Worksheet {
             // Change any column format local index from local to global.
             for column in &mut table.columns {
                 if let Some(format) = column.format.as_mut() {
-                    format.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
+                    // Look up the local index since a previous save may already
+                    // have changed the stored index.
+                    if let Some(dxf_index) = self.dxf_indices.get(format) {
+                        format.dxf_index = self.global_dxf_indices[*dxf_index as usize];
+                    }
                 }
             }
 
-- 
2.43.0


From 674467f3d945c91dd08ebe105ac69013f237f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 016/106] fix: number the default table names anew on each save

The default name of a previous save could clash with that of a table which
was added to an earlier worksheet.
---
 src/table.rs     | 2 ++
 src/worksheet.rs | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/table.rs b/src/table.rs
index b579f1b..bfe1347 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -115,6 +115,7 @@ pub struct Table {
 
     pub(crate) index: u32,
     pub(crate) name: String,
+    pub(crate) has_default_name: bool,
     pub(crate) style: TableStyle,
 
     pub(crate) cell_range: CellRange,
@@ -202,6 +203,7 @@ impl Table {
             columns: vec![],
             index: 0,
             name: String::new(),
+            has_default_name: false,
             style: TableStyle::Medium9,
             cell_range: CellRange::default(),
             show_first_column: false,
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 55914c1..bd6c9ac 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16546,8 +16546,9 @@ impl Worksheet {
     pub(crate) fn prepare_worksheet_tables(&mut self, mut table_id: u32) -> u32 {
         for table in &mut self.tables {
             table.index = table_id;
-            if table.name.is_empty() {
+            if table.name.is_empty() || table.has_default_name {
                 table.name = format!("Table{table_id}");
+                table.has_default_name = true;
             }
 
             // Change any column format local index from local to global.
-- 
2.43.0


From a45d3246915cf750be269648d4c0affe85f079fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 017/106] fix: don't keep the default active sheet between
 saves

---
 src/workbook.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index fcbae50..691fa2e 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2045,8 +2045,6 @@ impl Workbook {
         if self.worksheets.is_empty() {
             self.add_worksheet();
         }
-        // Ensure one sheet is active/selected.
-        self.set_active_worksheets();
 
         // Check for the use of hyperlink style in the worksheets and if so add
         // a hyperlink style to the global formats.
@@ -2194,6 +2192,26 @@ impl Workbook {
             }
         }
 
+        // Ensure one sheet is active/selected. The user-defined state of that
+        // sheet is restored after the save so that the default doesn't persist.
+        let active_index = self.active_worksheet_index();
+        let worksheet = &self.worksheets[active_index];
+        let (active, selected, visible) =
+            (worksheet.active, worksheet.selected, worksheet.visible);
+        self.worksheets[active_index].set_active(true);
+
+        let result = self.assemble_package(writer);
+
+        let worksheet = &mut self.worksheets[active_index];
+        worksheet.active = active;
+        worksheet.selected = selected;
+        worksheet.visible = visible;
+
+        result
+    }
+
+    // Collect the workbook level metadata and assemble the zip/xlsx file.
+    fn assemble_package<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
         // Collect workbook level metadata to help generate the xlsx file.
         let mut package_options = PackagerOptions::new();
         package_options = self.set_package_options(package_options)?;
@@ -2207,8 +2225,9 @@ impl Workbook {
 
     // Iterates through the worksheets and finds which is the user-defined Active
     // sheet. If none has been set, then defaults to the first sheet, like Excel.
-    fn set_active_worksheets(&mut self) {
+    fn active_worksheet_index(&mut self) -> usize {
         let mut active_index = 0;
+        self.first_sheet = 0;
 
         for (i, worksheet) in self.worksheets.iter().enumerate() {
             if worksheet.active {
@@ -2218,8 +2237,8 @@ impl Workbook {
                 self.first_sheet = i as u16;
             }
         }
-        self.worksheets[active_index].set_active(true);
         self.active_tab = active_index as u16;
+        active_index
     }
 
     // Prepare the worksheet VML elements such as buttons and header images.
-- 
2.43.0


From a9f9d975ab8f7ee31a17bed06ba9773eec1d9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 018/106] fix: drop the VML objects of a failed save

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index bd6c9ac..1311ff2 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16817,6 +16817,8 @@ impl Worksheet {
         self.drawing_rel_ids.clear();
         self.drawing_relationships.clear();
         self.drawing.drawings.clear();
+        self.buttons_vml_info.clear();
+        self.comments_vml_info.clear();
         self.header_footer_vml_info.clear();
         self.hyperlink_relationships.clear();
         self.table_relationships.clear();
-- 
2.43.0


From 080a5c2890a0f8503e198d78c7ee984e026a7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 019/106] fix: return the I/O errors of constant memory
 worksheets

---
 src/packager.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index 48866dd..adada8b 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -467,15 +467,15 @@ impl<W: Write + Seek + Send> Packager<W> {
                 // We also need to flush the last remaining row.
                 worksheet.flush_last_row();
 
-                worksheet.file_writer.rewind().unwrap();
+                worksheet.file_writer.rewind()?;
                 let mut reader = BufReader::new(worksheet.file_writer.get_ref());
                 loop {
-                    let buffer = reader.fill_buf().unwrap();
+                    let buffer = reader.fill_buf()?;
                     let length = buffer.len();
                     if length == 0 {
                         break;
                     }
-                    self.zip.write_all(buffer).unwrap();
+                    self.zip.write_all(buffer)?;
                     reader.consume(length);
                 }
             }
-- 
2.43.0


From a4bfea4247f50b22499d9c7ccb12bbe07c831a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 020/106] fix: unhide the autofilter rows after a save

---
 src/workbook.rs  | 13 ++++++++++++-
 src/worksheet.rs | 27 +++++++++++++++++++++++++--
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 691fa2e..fd49f2d 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2035,9 +2035,20 @@ impl Workbook {
 
     // Internal function to prepare the workbook and other component files for
     // writing to the xlsx file.
+    fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+        let result = self.prepare_and_save(writer);
+
+        // Restore the worksheet rows that were hidden by an autofilter.
+        for worksheet in &mut self.worksheets {
+            worksheet.unhide_autofilter_rows();
+        }
+
+        result
+    }
+
     #[allow(clippy::similar_names)]
     #[allow(clippy::too_many_lines)]
-    fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+    fn prepare_and_save<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
         // Reset workbook and worksheet state data between saves.
         self.reset();
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1311ff2..700f085 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1611,6 +1611,7 @@ pub struct Worksheet {
     filter_conditions: BTreeMap<ColNum, FilterCondition>,
     filter_automatic_off: bool,
     has_drawing_object_linkage: bool,
+    autofilter_hidden_rows: BTreeMap<RowNum, Option<RowOptions>>,
     cells_with_autofilter: HashMap<(RowNum, ColNum), (FilterType, CellRange)>,
     conditional_formats: BTreeMap<String, Vec<Box<dyn ConditionalFormat + Sync + Send>>>,
     conditional_format_order: Vec<String>,
@@ -1825,6 +1826,7 @@ impl Worksheet {
             buttons: BTreeMap::new(),
             notes: BTreeMap::new(),
             has_drawing_object_linkage: false,
+            autofilter_hidden_rows: BTreeMap::new(),
             cells_with_autofilter: HashMap::new(),
             conditional_formats: BTreeMap::new(),
             conditional_format_order: vec![],
@@ -14748,18 +14750,39 @@ impl Worksheet {
                 if filter_condition.is_list_filter {
                     // Handle list filters.
                     if !self.row_matches_list_filter(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_autofilter_row(row_num);
                     }
                 } else {
                     // Handle custom filters.
                     if !self.row_matches_custom_filters(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_autofilter_row(row_num);
                     }
                 }
             }
         }
     }
 
+    // Hide an autofilter row for the current save.
+    fn hide_autofilter_row(&mut self, row_num: RowNum) {
+        let row_options = self.changed_rows.get(&row_num).cloned();
+        self.autofilter_hidden_rows
+            .entry(row_num)
+            .or_insert(row_options);
+
+        self.set_row_hidden(row_num).unwrap();
+    }
+
+    // Restore the rows that were hidden by the autofilter for the last save. The
+    // data and the filters may change before the next one.
+    pub(crate) fn unhide_autofilter_rows(&mut self) {
+        for (row_num, row_options) in mem::take(&mut self.autofilter_hidden_rows) {
+            match row_options {
+                Some(row_options) => self.changed_rows.insert(row_num, row_options),
+                None => self.changed_rows.remove(&row_num),
+            };
+        }
+    }
+
     // Check if the data in a cell matches one of the values in the list of
     // filter conditions (which in the list filter case is a list of strings or
     // number values).
-- 
2.43.0


From b3a441379f99e189a8c413074879212746c2f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 021/106] fix: don't keep the visibility of notes between saves

---
 src/worksheet.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 700f085..56d249e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16418,14 +16418,9 @@ impl Worksheet {
         let mut button_id = 1;
         let mut note_count = 0;
 
-        // Modify Note visibility and author according to worksheet settings.
+        // Modify Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-                // Set all notes visible if required.
-                if self.show_all_notes && note.is_visible.is_none() {
-                    note.is_visible = Some(true);
-                }
-
                 // Check for a user defined author name.
                 let Some(note_author) = &note.author else {
                     continue;
@@ -16452,6 +16447,12 @@ impl Worksheet {
                 let note_col = note.col();
 
                 let mut vml_info = note.vml_info();
+
+                // Set all notes visible if required.
+                if self.show_all_notes && note.is_visible.is_none() {
+                    vml_info.is_visible = true;
+                }
+
                 vml_info.drawing_info = self.position_object_pixels(note_row, note_col, note);
                 vml_info.row = *cell_row;
                 vml_info.col = *cell_col;
-- 
2.43.0


From 81977960f801dfadb6c599134554fbfafdc30a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 022/106] fix: spell the twoDigitTextYear attribute of ignored
 errors

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 56d249e..b2ce5ba 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -20840,7 +20840,7 @@ impl fmt::Display for IgnoreError {
         match self {
             Self::FormulaError => write!(f, "evalError"),
             Self::FormulaDiffers => write!(f, "formula"),
-            Self::TwoDigitTextYear => write!(f, "TwoDigitTextYear"),
+            Self::TwoDigitTextYear => write!(f, "twoDigitTextYear"),
             Self::FormulaOmitsCells => write!(f, "formulaRange"),
             Self::DataValidationError => write!(f, "listDataValidation"),
             Self::NumberStoredAsText => write!(f, "numberStoredAsText"),
-- 
2.43.0


From 4d64a4dd4a8de55f8b394300540148a3e42290d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 023/106] fix: don't panic on page breaks which only contain 0

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b2ce5ba..1a4e575 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12838,7 +12838,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel column limit.
-        if *breaks.last().unwrap() >= ROW_MAX {
+        if breaks.last().is_some_and(|row| *row >= ROW_MAX) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -12878,7 +12878,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel col limit.
-        if *breaks.last().unwrap() >= u32::from(COL_MAX) {
+        if breaks.last().is_some_and(|col| *col >= u32::from(COL_MAX)) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
-- 
2.43.0


From d169c7c08464ff2879c2531c88fea8c322c0b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 024/106] fix: write the first page number

---
 src/worksheet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1a4e575..c5553c0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18323,7 +18323,10 @@ impl Worksheet {
         }
 
         if self.first_page_number > 0 {
-            attributes.push(("useFirstPageNumber", self.first_page_number.to_string()));
+            if self.first_page_number > 1 {
+                attributes.push(("firstPageNumber", self.first_page_number.to_string()));
+            }
+            attributes.push(("useFirstPageNumber", "1".to_string()));
         }
 
         if self.print_black_and_white {
-- 
2.43.0


From dbabc66e1e5f5f1b185744f6bd52e885a851b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 025/106] fix: let a default print area or top left cell
 replace an earlier one

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index c5553c0..f4ae9d7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10005,6 +10005,7 @@ impl Worksheet {
 
         // Ignore cell (0, 0) since that is the default top-left cell.
         if row == 0 && col == 0 {
+            self.top_left_cell.clear();
             return Ok(self);
         }
 
@@ -14070,6 +14071,7 @@ impl Worksheet {
         // The print range is the entire worksheet, therefore it is the same
         // as the default, so we can ignore it.
         if first_row == 0 && first_col == 0 && last_row == ROW_MAX - 1 && last_col == COL_MAX - 1 {
+            self.print_area_defined_name.in_use = false;
             return Ok(self);
         }
 
-- 
2.43.0


From c67015c291001bcc6a5ac353d3dc7a38f850b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 026/106] fix: Format::unset_hyperlink_style() set the
 hyperlink style

---
 src/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format.rs b/src/format.rs
index 599a63b..436a666 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -2415,7 +2415,7 @@ impl Format {
 
     /// Unset the hyperlink style. Doesn't reset the other properties.
     pub fn unset_hyperlink_style(mut self) -> Format {
-        self.font.is_hyperlink = true;
+        self.font.is_hyperlink = false;
 
         self
     }
-- 
2.43.0


From 76e9c2da0898632067864b4d19b0cdbc6705da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 027/106] fix: the last of set_num_format() and
 set_num_format_index() applies

---
 src/format.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 436a666..ae7cc2a 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -828,6 +828,7 @@ impl Format {
     ///
     pub fn set_num_format(mut self, num_format: impl Into<String>) -> Format {
         self.num_format = num_format.into();
+        self.num_format_index = 0;
         self
     }
 
@@ -970,9 +971,9 @@ impl Format {
             (49, "@"),
         ]);
 
-        if let Some(num_format) = num_formats.get(&num_format_index) {
-            self.num_format = (*num_format).to_string();
-        }
+        self.num_format = num_formats
+            .get(&num_format_index)
+            .map_or_else(String::new, |num_format| (*num_format).to_string());
 
         self
     }
@@ -2528,11 +2529,8 @@ impl Format {
         self.quote_prefix |= other.quote_prefix;
         self.locked &= other.locked;
 
-        if self.num_format.is_empty() {
+        if self.num_format.is_empty() && self.num_format_index == 0 {
             self.num_format.clone_from(&other.num_format);
-        }
-
-        if self.num_format_index == 0 {
             self.num_format_index = other.num_format_index;
         }
 
-- 
2.43.0


From 8d412f6e3812c18651c1f02a31d9c31491939b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 028/106] fix: Worksheet::set_first_tab() left a hidden sheet
 hidden

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f4ae9d7..51ced78 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12491,7 +12491,7 @@ impl Worksheet {
         self.first_sheet = enable;
 
         // First visible worksheet cannot be hidden.
-        if self.selected {
+        if self.first_sheet {
             self.visible = Visible::Default;
         }
         self
-- 
2.43.0


From 7db47a3e6dd4d0d9b91e7fc001a0dabd8c34d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 029/106] fix: default names of added and pushed worksheets
 could collide

---
 src/workbook.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index fd49f2d..bf0e6fc 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1218,8 +1218,10 @@ impl Workbook {
     /// src="https://rustxlsxwriter.github.io/images/workbook_push_worksheet.png">
     ///
     pub fn push_worksheet(&mut self, mut worksheet: Worksheet) {
+        self.num_worksheets += 1;
+
         if worksheet.name().is_empty() {
-            let name = format!("Sheet{}", self.worksheets.len() + 1);
+            let name = format!("Sheet{}", self.num_worksheets);
             worksheet.set_name(&name).unwrap();
         }
 
-- 
2.43.0


From f74b31c8b0346df6c9e31b5474a93726baa42fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 030/106] fix: define_name() panicked on an empty name and
 rejected sheet names with an exclamation mark

---
 src/workbook.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index bf0e6fc..08f7ac1 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1544,7 +1544,7 @@ impl Workbook {
         let name = name.into();
 
         // Match Global/Workbook or Local/Worksheet defined names.
-        match name.find('!') {
+        match name.rfind('!') {
             Some(position) => {
                 defined_name.quoted_sheet_name = name[0..position].to_string();
                 defined_name.name = name[position + 1..].to_string();
@@ -1558,7 +1558,7 @@ impl Workbook {
 
         // Excel requires that the name starts with a letter or underscore.
         // Also, backspace is allowed but undocumented by Excel.
-        if !defined_name.name.chars().next().unwrap().is_alphabetic()
+        if !defined_name.name.starts_with(char::is_alphabetic)
             && !defined_name.name.starts_with('_')
             && !defined_name.name.starts_with('\\')
         {
-- 
2.43.0


From 8fdc39d1768d2ffe653b05092023bf7f05e55e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 031/106] fix: quote_sheet_name() panicked for names like "a.1"

---
 src/utility.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility.rs b/src/utility.rs
index 4796619..a682b60 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -670,6 +670,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
         // Excel row and column limits.
         // --------------------------------------------------------------------
         else if (1..=3).contains(&string_part.len())
+            && string_part.chars().all(|c| c.is_ascii_uppercase())
             && number_part.chars().all(|c| c.is_ascii_digit())
         {
             let col = column_name_to_number(&string_part);
-- 
2.43.0


From 096cef3e096599d6007343b74218693b2ac7f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 032/106] fix: column_name_to_number() overflowed for names of
 more than three letters

---
 src/utility.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index a682b60..1980acd 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -112,9 +112,14 @@ pub fn column_name_to_number(column: &str) -> ColNum {
         return 0;
     }
 
-    let mut col_num = 0;
+    let mut col_num: ColNum = 0;
     for char in column.chars() {
-        col_num = (col_num * 26) + (char as u16 - 'A' as u16 + 1);
+        let digit = (char as u32).saturating_sub('A' as u32) + 1;
+        let digit = ColNum::try_from(digit).unwrap_or(ColNum::MAX);
+
+        // Columns that are too large for the type saturate and are thus also
+        // outside of the Excel column range.
+        col_num = col_num.saturating_mul(26).saturating_add(digit);
     }
 
     col_num - 1
-- 
2.43.0


From fc0e9ed62fd465f6ff4cd039ce0f5e427baf81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 033/106] fix: chart range strings with an apostrophe or
 exclamation mark in the sheet name

---
 src/chart.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 73b8b82..0fbbd17 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8373,7 +8373,7 @@ impl ChartRange {
         let mut last_col = 0;
 
         // Parse the chart range string into the worksheet name and range parts.
-        if let Some(position) = range_string.find('!') {
+        if let Some(position) = range_string.rfind('!') {
             let range = &range_string[position + 1..].replace('$', "");
 
             if utility::is_valid_range(range) {
@@ -8420,12 +8420,10 @@ impl ChartRange {
         }
 
         // Strip the quotes from quoted sheet names.
-        if sheet_name.starts_with('\'') && sheet_name.ends_with('\'') {
-            sheet_name = &sheet_name[1..sheet_name.len() - 1];
-        }
+        let sheet_name = utility::unquote_sheetname(sheet_name);
 
         ChartRange {
-            sheet_name: sheet_name.to_string(),
+            sheet_name,
             first_row,
             first_col,
             last_row,
-- 
2.43.0


From e49ab5e78dff0ee9860d2abd12049f513a907b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 034/106] fix: unquoting a single apostrophe as a sheet name
 panicked

---
 src/utility.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index 1980acd..38d1b86 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -737,7 +737,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
 
 // Unquote an Excel single quoted string.
 pub(crate) fn unquote_sheetname(sheetname: &str) -> String {
-    if sheetname.starts_with('\'') && sheetname.ends_with('\'') {
+    if sheetname.len() > 1 && sheetname.starts_with('\'') && sheetname.ends_with('\'') {
         let sheetname = sheetname[1..sheetname.len() - 1].to_string();
         sheetname.replace("''", "'")
     } else {
-- 
2.43.0


From 5d08c455f8ad51a90378aab6456a7890ffe1a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 035/106] fix: cells where a row and a column format cross used
 an earlier row or column format

---
 src/worksheet.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 51ced78..022b18c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6597,7 +6597,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.xf_index = xf_index,
+            Some(row_options) => {
+                row_options.xf_index = xf_index;
+                row_options.format = Some(format.clone());
+            }
             None => {
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
@@ -8060,7 +8063,10 @@ impl Worksheet {
 
         // Update an existing col metadata object or create a new one.
         match self.changed_cols.get_mut(&col) {
-            Some(col_options) => col_options.xf_index = xf_index,
+            Some(col_options) => {
+                col_options.xf_index = xf_index;
+                col_options.format = Some(format.clone());
+            }
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
-- 
2.43.0


From 2843340b057a9065271d8d4f107ef1f90ba022d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 036/106] fix: the outline level of rows and columns grouped
 once was not written to the sheet header

---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 022b18c..8193265 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17230,6 +17230,8 @@ impl Worksheet {
                     format: None,
                 };
                 self.changed_rows.insert(row, row_options);
+
+                self.max_outline_row_level = std::cmp::max(1, self.max_outline_row_level);
             }
         }
 
@@ -17329,6 +17331,8 @@ impl Worksheet {
                     format: None,
                 };
                 self.changed_cols.insert(column, col_options);
+
+                self.max_outline_col_level = std::cmp::max(1, self.max_outline_col_level);
             }
         }
 
-- 
2.43.0


From c1c2133b6e3a14ada1881957ec78d873cd7fd54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 037/106] fix: a refused row or column group was applied in
 part or panicked

---
 src/worksheet.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8193265..18125a0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6997,9 +6997,6 @@ impl Worksheet {
         first_row: RowNum,
         last_row: RowNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the row after the collapsed group.
-        self.set_collapsed_row(last_row + 1)?;
-
         self.set_grouped_rows(first_row, last_row, true)
     }
 
@@ -7371,9 +7368,6 @@ impl Worksheet {
         first_col: ColNum,
         last_col: ColNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the column after the collapsed group.
-        self.set_collapsed_column(last_col + 1)?;
-
         self.set_grouped_columns(first_col, last_col, true)
     }
 
@@ -17186,6 +17180,20 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits.
+        if (first_row..=last_row).any(|row| {
+            self.changed_rows
+                .get(&row)
+                .is_some_and(|row_options| row_options.level >= 7)
+        }) {
+            return Err(XlsxError::MaxGroupLevelExceeded);
+        }
+
+        // Set the collapsed property for the row after the group.
+        if collapsed {
+            self.set_collapsed_row(last_row + 1)?;
+        }
+
         // Write group outline for each row.
         for row in first_row..=last_row {
             self.set_grouped_row(row, collapsed)?;
@@ -17286,6 +17294,20 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits.
+        if (first_col..=last_col).any(|col| {
+            self.changed_cols
+                .get(&col)
+                .is_some_and(|col_options| col_options.level >= 7)
+        }) {
+            return Err(XlsxError::MaxGroupLevelExceeded);
+        }
+
+        // Set the collapsed property for the column after the group.
+        if collapsed {
+            self.set_collapsed_column(last_col + 1)?;
+        }
+
         // Write group outline for each column.
         for col in first_col..=last_col {
             self.set_grouped_column(col, collapsed)?;
-- 
2.43.0


From 086a06fd85317f4df91c27b928befcdd8ce8dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 038/106] fix: rows changed before set_default_row_height()
 kept the earlier default height

---
 src/worksheet.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 18125a0..d34ead7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6443,10 +6443,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.height = height,
+            Some(row_options) => row_options.height = Some(height),
             None => {
                 let row_options = RowOptions {
-                    height,
+                    height: Some(height),
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -6603,7 +6603,7 @@ impl Worksheet {
             }
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index,
                     hidden: false,
                     level: 0,
@@ -7620,7 +7620,7 @@ impl Worksheet {
             Some(row_options) => row_options.hidden = true,
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index: 0,
                     hidden: true,
                     level: 0,
@@ -16817,7 +16817,7 @@ impl Worksheet {
                     // the "object_movement" is MoveAndSizeWithCellsAfter.
                     0u32
                 } else {
-                    (row_options.height * 4.0 / 3.0) as u32
+                    (row_options.height.unwrap_or(self.user_default_row_height) * 4.0 / 3.0) as u32
                 }
             }
             None => (self.user_default_row_height * 4.0 / 3.0) as u32,
@@ -17230,7 +17230,7 @@ impl Worksheet {
             }
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index: 0,
                     hidden: collapsed,
                     level: 1,
@@ -17259,7 +17259,7 @@ impl Worksheet {
             Some(row_options) => row_options.collapsed = true,
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -18980,6 +18980,7 @@ impl Worksheet {
 
         if let Some(row_options) = row_options {
             let xf_index = row_options.xf_index;
+            let height = row_options.height.unwrap_or(self.user_default_row_height);
 
             if xf_index != 0 {
                 let xf_index = self.get_global_xf_index(xf_index);
@@ -18988,11 +18989,11 @@ impl Worksheet {
             }
 
             // Only add ht parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
+            if height != DEFAULT_ROW_HEIGHT
+                || (height == DEFAULT_ROW_HEIGHT
                     && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
             {
-                attributes.push(("ht", row_options.height.to_string()));
+                attributes.push(("ht", height.to_string()));
             }
 
             if row_options.hidden {
@@ -19000,8 +19001,8 @@ impl Worksheet {
             }
 
             // Only add customHeight parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
+            if height != DEFAULT_ROW_HEIGHT
+                || (height == DEFAULT_ROW_HEIGHT
                     && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
             {
                 attributes.push(("customHeight", "1".to_string()));
@@ -19043,6 +19044,7 @@ impl Worksheet {
 
         if let Some(row_options) = row_options {
             let xf_index = row_options.xf_index;
+            let height = row_options.height.unwrap_or(self.user_default_row_height);
 
             if xf_index != 0 {
                 attributes.push(("s", xf_index.to_string()));
@@ -19050,11 +19052,11 @@ impl Worksheet {
             }
 
             // Only add ht parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
+            if height != DEFAULT_ROW_HEIGHT
+                || (height == DEFAULT_ROW_HEIGHT
                     && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
             {
-                attributes.push(("ht", row_options.height.to_string()));
+                attributes.push(("ht", height.to_string()));
             }
 
             if row_options.hidden {
@@ -19062,8 +19064,8 @@ impl Worksheet {
             }
 
             // Only add customHeight parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
+            if height != DEFAULT_ROW_HEIGHT
+                || (height == DEFAULT_ROW_HEIGHT
                     && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
             {
                 attributes.push(("customHeight", "1".to_string()));
@@ -20554,7 +20556,7 @@ impl Default for CellRange {
 
 #[derive(Clone)]
 struct RowOptions {
-    height: f64,
+    height: Option<f64>,
     xf_index: u32,
     level: u8,
     hidden: bool,
-- 
2.43.0


From fd3241703744bfd356f18db56ee52add8737b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 039/106] fix: autofit() did not narrow columns that were only
 formatted, hidden or grouped

---
 src/worksheet.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d34ead7..59049ca 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8063,7 +8063,7 @@ impl Worksheet {
             }
             None => {
                 let col_options = ColOptions {
-                    width: DEFAULT_COL_WIDTH,
+                    width: None,
                     xf_index,
                     hidden: false,
                     level: 0,
@@ -8134,7 +8134,7 @@ impl Worksheet {
             Some(col_options) => col_options.hidden = true,
             None => {
                 let col_options = ColOptions {
-                    width: DEFAULT_COL_WIDTH,
+                    width: None,
                     xf_index: 0,
                     hidden: true,
                     level: 0,
@@ -15942,20 +15942,19 @@ impl Worksheet {
             Some(col_options) => {
                 // Note, autofit() will only update a user defined value if is
                 // greater than it. All other conditions are simple updates.
-                if autofit && !col_options.autofit {
-                    if width > col_options.width {
-                        col_options.width = width;
-                        col_options.autofit = true;
+                match col_options.width {
+                    Some(user_width)
+                        if autofit && !col_options.autofit && width <= user_width => {}
+                    _ => {
+                        col_options.width = Some(width);
+                        col_options.autofit = autofit;
                     }
-                } else {
-                    col_options.width = width;
-                    col_options.autofit = autofit;
                 }
             }
             None => {
                 // Create a new column metadata object.
                 let col_options = ColOptions {
-                    width,
+                    width: Some(width),
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -16787,7 +16786,7 @@ impl Worksheet {
 
         match self.changed_cols.get(&col) {
             Some(col_options) => {
-                let pixel_width = col_options.width;
+                let pixel_width = col_options.width.unwrap_or(DEFAULT_COL_WIDTH);
                 let hidden = col_options.hidden;
 
                 if hidden && position != ObjectMovement::MoveAndSizeWithCellsAfter {
@@ -17344,7 +17343,7 @@ impl Worksheet {
             }
             None => {
                 let col_options = ColOptions {
-                    width: DEFAULT_COL_WIDTH,
+                    width: None,
                     xf_index: 0,
                     hidden: collapsed,
                     level: 1,
@@ -17374,7 +17373,7 @@ impl Worksheet {
             Some(column_options) => column_options.collapsed = true,
             None => {
                 let column_options = ColOptions {
-                    width: DEFAULT_COL_WIDTH,
+                    width: None,
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -19407,7 +19406,7 @@ impl Worksheet {
     fn write_col_element(&mut self, first_col: ColNum, last_col: ColNum, col_options: &ColOptions) {
         let first_col = first_col + 1;
         let last_col = last_col + 1;
-        let mut width = col_options.width;
+        let mut width = col_options.width.unwrap_or(DEFAULT_COL_WIDTH);
         let xf_index = col_options.xf_index;
         let has_custom_width = width != DEFAULT_COL_WIDTH;
         let hidden = col_options.hidden;
@@ -20566,7 +20565,7 @@ struct RowOptions {
 
 #[derive(Clone, PartialEq)]
 struct ColOptions {
-    width: f64,
+    width: Option<f64>,
     xf_index: u32,
     level: u8,
     hidden: bool,
-- 
2.43.0


From 3d0793dc6028c20646b947435ef3c665690472a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 040/106] fix: a column range beyond the limits was set in part

---
 src/worksheet.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 59049ca..f6b2214 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8179,6 +8179,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         let width = width.into();
         for col_num in first_col..=last_col {
             self.set_column_width(col_num, width)?;
@@ -8217,6 +8221,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         for col_num in first_col..=last_col {
             self.set_column_width_pixels(col_num, width)?;
         }
@@ -8300,6 +8308,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         for col_num in first_col..=last_col {
             self.set_column_format(col_num, format)?;
         }
@@ -8335,6 +8347,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         for col_num in first_col..=last_col {
             self.set_column_hidden(col_num)?;
         }
-- 
2.43.0


From ff5cf3b626e0730aaeb9d1cb47ce14d11efe7c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 041/106] fix: text conditional formats counted bytes as
 characters and did not escape quotes

---
 src/conditional_format.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 7b50576..65ac8fa 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3002,23 +3002,28 @@ impl ConditionalFormatText {
         let mut attributes = vec![];
         let anchor = &range_to_anchor(range);
 
-        // Set the rule attributes based on the criteria.
+        // Set the rule attributes based on the criteria. Double quotes are
+        // doubled in the formula string and lengths are in Excel characters.
         let formula = match rule {
             ConditionalFormatTextRule::Contains(text) => {
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "containsText".to_string()));
                 format!(r#"NOT(ISERROR(SEARCH("{text}",{anchor})))"#)
             }
             ConditionalFormatTextRule::DoesNotContain(text) => {
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "notContainsText".to_string()));
                 format!(r#"ISERROR(SEARCH("{text}",{anchor}))"#)
             }
             ConditionalFormatTextRule::BeginsWith(text) => {
-                let length = text.len();
+                let length = text.encode_utf16().count();
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "beginsWith".to_string()));
                 format!(r#"LEFT({anchor},{length})="{text}""#)
             }
             ConditionalFormatTextRule::EndsWith(text) => {
-                let length = text.len();
+                let length = text.encode_utf16().count();
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "endsWith".to_string()));
                 format!(r#"RIGHT({anchor},{length})="{text}""#)
             }
-- 
2.43.0


From d445247645ca1beb46f6828d538763cfab5286f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 042/106] fix: a single double quote was not escaped in a cell
 conditional format

---
 src/conditional_format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 65ac8fa..7f79ed4 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6632,7 +6632,7 @@ impl ConditionalFormatValue {
         }
 
         // Ignore already quoted strings.
-        if self.value.starts_with('"') && self.value.ends_with('"') {
+        if self.value.len() > 1 && self.value.starts_with('"') && self.value.ends_with('"') {
             return;
         }
 
-- 
2.43.0


From 2e50428237d7e28c51e048b8ce2cdcd15d98999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 043/106] fix: an icon set kept the extension flags of an
 earlier icon type or icons

---
 src/conditional_format.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 7f79ed4..b9b2f27 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -5801,9 +5801,15 @@ impl ConditionalFormatIconSet {
                 self.has_x14_extensions = true;
                 self.has_x14_only = true;
             }
-            _ => {}
+            _ => {
+                self.has_x14_extensions = false;
+                self.has_x14_only = false;
+            }
         }
 
+        // The icons were reset to the defaults of the icon type above.
+        self.has_custom_icons = false;
+
         self.icon_type = icon_type;
         self
     }
@@ -6045,11 +6051,17 @@ impl ConditionalFormatIconSet {
         }
 
         // Check for custom icons types.
-        if icons.iter().any(|icon| icon.is_custom) {
-            self.has_custom_icons = true;
-            self.has_x14_extensions = true;
-            self.has_x14_only = true;
-        }
+        self.has_custom_icons = icons.iter().any(|icon| icon.is_custom);
+
+        let needs_x14 = self.has_custom_icons
+            || matches!(
+                self.icon_type,
+                ConditionalFormatIconType::ThreeStars
+                    | ConditionalFormatIconType::ThreeTriangles
+                    | ConditionalFormatIconType::FiveBoxes
+            );
+        self.has_x14_extensions = needs_x14;
+        self.has_x14_only = needs_x14;
 
         self.icons = icons;
 
-- 
2.43.0


From 0cfad4b10b81c512a42969bbb2e7189e296e051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 044/106] fix: custom icons lost the greater than setting

---
 src/conditional_format.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index b9b2f27..66fea36 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6259,6 +6259,7 @@ impl ConditionalFormatIconSet {
     fn write_x14_type(writer: &mut Cursor<Vec<u8>>, icon: &ConditionalFormatCustomIcon) {
         let mut attributes = vec![];
         let value = icon.value.value.as_ref();
+        let gte = icon.greater_than.then(|| ("gte", "0".to_string()));
 
         match icon.rule_type {
             ConditionalFormatType::Automatic
@@ -6266,24 +6267,28 @@ impl ConditionalFormatIconSet {
             | ConditionalFormatType::Highest => {}
             ConditionalFormatType::Number => {
                 attributes.push(("type", "num".to_string()));
+                attributes.extend(gte);
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percent => {
                 attributes.push(("type", "percent".to_string()));
+                attributes.extend(gte);
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Formula => {
                 attributes.push(("type", "formula".to_string()));
+                attributes.extend(gte);
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percentile => {
                 attributes.push(("type", "percentile".to_string()));
+                attributes.extend(gte);
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
-- 
2.43.0


From a95bc72bf9c25a48514cc3af14cc94a452aa43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 045/106] fix: the negative border color of a data bar was lost
 if it was the same as the fill color

---
 src/conditional_format.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 66fea36..4ad70c6 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -5417,7 +5417,7 @@ impl ConditionalFormatDataBar {
             );
         }
 
-        if !self.border_off && self.fill_color != self.negative_border_color {
+        if self.has_negative_border_color() {
             Self::write_color(
                 &mut writer,
                 "x14:negativeBorderColor",
@@ -5435,6 +5435,14 @@ impl ConditionalFormatDataBar {
         cursor_to_string(&writer)
     }
 
+    // Check if the negative border needs a color other than the default, which
+    // is the color of the positive border.
+    fn has_negative_border_color(&self) -> bool {
+        !self.border_off
+            && (self.fill_color != self.negative_border_color
+                || self.border_color != self.negative_border_color)
+    }
+
     // Write the <x14:dataBar> element.
     fn write_data_bar(writer: &mut Cursor<Vec<u8>>, data_bar: ConditionalFormatDataBar) {
         let mut attributes = vec![
@@ -5464,7 +5472,7 @@ impl ConditionalFormatDataBar {
             attributes.push(("negativeBarColorSameAsPositive", "1".to_string()));
         }
 
-        if !data_bar.border_off && data_bar.fill_color != data_bar.negative_border_color {
+        if data_bar.has_negative_border_color() {
             attributes.push(("negativeBarBorderColorSameAsPositive", "0".to_string()));
         }
 
-- 
2.43.0


From 208856aaa9b9a0e1d9b053e8837295ed1d37a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:27 +0000
Subject: [PATCH 046/106] fix: an empty string in a cell conditional format
 gave a rule without a formula

---
 src/conditional_format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 4ad70c6..2a653c8 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6652,7 +6652,7 @@ impl ConditionalFormatValue {
     // Cell formats are quoted.
     pub(crate) fn quote_string(&mut self) {
         // Only quote string values.
-        if !self.is_string || self.value.is_empty() {
+        if !self.is_string {
             return;
         }
 
-- 
2.43.0


From 800b4abe86d203606c9e1f0a3a4cc359a5447eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 047/106] fix: control characters in attributes and the
 characters U+FFFE and U+FFFF gave files that are not XML

---
 src/xmlwriter.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/xmlwriter.rs b/src/xmlwriter.rs
index 945d96e..5ebf6a4 100644
--- a/src/xmlwriter.rs
+++ b/src/xmlwriter.rs
@@ -168,7 +168,13 @@ fn match_attribute_html_char(ch: char) -> Option<&'static str> {
         '<' => Some("&lt;"),
         '>' => Some("&gt;"),
         '\n' => Some("&#xA;"),
-        _ => None,
+
+        // Other whitespace would be normalized to a space by XML readers.
+        '\t' => Some("&#x9;"),
+        '\r' => Some("&#xD;"),
+
+        // Other characters that aren't allowed in XML are escaped as in data.
+        _ => match_xml_char(ch),
     }
 }
 
@@ -221,6 +227,10 @@ fn match_xml_char(ch: char) -> Option<&'static str> {
         '\x1E' => Some("_x001E_"),
         '\x1F' => Some("_x001F_"),
 
+        // Non-characters that aren't allowed in XML.
+        '\u{FFFE}' => Some("_xFFFE_"),
+        '\u{FFFF}' => Some("_xFFFF_"),
+
         _ => None,
     }
 }
-- 
2.43.0


From 8c27210142d2f93380e1a836c49592ef62f0db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 048/106] fix: literal _xHHHH_ sequences in rich strings, notes
 and formula results were not escaped

---
 src/comment.rs   | 11 ++++++++---
 src/worksheet.rs | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/comment.rs b/src/comment.rs
index 353f865..ed4aaaf 100644
--- a/src/comment.rs
+++ b/src/comment.rs
@@ -10,8 +10,8 @@ use std::collections::BTreeMap;
 use std::io::Cursor;
 
 use crate::xmlwriter::{
-    xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only,
-    xml_end_tag, xml_start_tag, xml_start_tag_only,
+    escape_xml_escapes, xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag,
+    xml_empty_tag_only, xml_end_tag, xml_start_tag, xml_start_tag_only,
 };
 use crate::{utility, ColNum, Note, RowNum};
 
@@ -216,6 +216,11 @@ impl Comment {
             vec![]
         };
 
-        xml_data_element(&mut self.writer, "t", text, &attributes);
+        xml_data_element(
+            &mut self.writer,
+            "t",
+            &escape_xml_escapes(text),
+            &attributes,
+        );
     }
 }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index f6b2214..b3b2304 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15533,12 +15533,22 @@ impl Worksheet {
             // First segment doesn't require a font run for the default format.
             if format.is_default() && first_segment {
                 xml_start_tag_only(&mut styler.writer, "r");
-                xml_data_element(&mut styler.writer, "t", string, &attributes);
+                xml_data_element(
+                    &mut styler.writer,
+                    "t",
+                    &xmlwriter::escape_xml_escapes(string),
+                    &attributes,
+                );
                 xml_end_tag(&mut styler.writer, "r");
             } else {
                 xml_start_tag_only(&mut styler.writer, "r");
                 styler.write_font(&format.font, false);
-                xml_data_element(&mut styler.writer, "t", string, &attributes);
+                xml_data_element(
+                    &mut styler.writer,
+                    "t",
+                    &xmlwriter::escape_xml_escapes(string),
+                    &attributes,
+                );
                 xml_end_tag(&mut styler.writer, "r");
             }
             first_segment = false;
@@ -19243,7 +19253,8 @@ impl Worksheet {
         };
 
         let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let result = crate::xmlwriter::escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
@@ -19298,7 +19309,8 @@ impl Worksheet {
         };
 
         let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let result = crate::xmlwriter::escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
-- 
2.43.0


From ba2379fe623e53d4adac039a1ee51981624fb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 049/106] fix: a plain string with the tags of a rich string
 was written as raw XML

---
 src/worksheet.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b3b2304..9c51914 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15110,6 +15110,15 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Rich strings are identified in the shared string table by their XML
+        // tags, so a plain string with the same tags is stored as a rich string
+        // with a single segment.
+        if !self.use_inline_strings && string.starts_with("<r>") && string.ends_with("</r>") {
+            let (rich_string, raw_string) =
+                Self::get_rich_string(&[(&Format::default(), &string)])?;
+            return self.store_rich_string(row, col, &rich_string, &raw_string, format);
+        }
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
-- 
2.43.0


From 901991b47d37943f11a6adfdc5517f27fdd2686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 050/106] fix: the length limit of a rich string was applied to
 its XML

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9c51914..f4f8648 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15180,7 +15180,7 @@ impl Worksheet {
         }
 
         //  Check that the string is < Excel limit of 32767 chars.
-        if string.chars().count() > MAX_STRING_LEN {
+        if raw_string.chars().count() > MAX_STRING_LEN {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
-- 
2.43.0


From 796947b6e1fe11f0251dbaa3a6bd343a086ab485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 051/106] fix: the text of rich strings was missing from chart
 caches and default table headers

---
 src/worksheet.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f4f8648..a9561aa 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16991,7 +16991,10 @@ impl Worksheet {
                     for col_num in first_col..=last_col {
                         match columns.get(&col_num) {
                             Some(cell) => match cell {
-                                CellType::String { string, .. } => {
+                                CellType::String { string, .. }
+                                | CellType::RichString {
+                                    raw_string: string, ..
+                                } => {
                                     data.push(string.to_string());
                                     cache.cache_type = ChartRangeCacheDataType::String;
                                 }
@@ -17045,7 +17048,13 @@ impl Worksheet {
 
         if let Some(columns) = self.data_table.get(&first_row) {
             for col_num in first_col..=last_col {
-                if let Some(CellType::String { string, .. }) = columns.get(&col_num) {
+                if let Some(
+                    CellType::String { string, .. }
+                    | CellType::RichString {
+                        raw_string: string, ..
+                    },
+                ) = columns.get(&col_num)
+                {
                     headers[(col_num - first_col) as usize] = string.to_string();
                 } else if let Some(CellType::InlineString { string, .. }) = columns.get(&col_num) {
                     headers[(col_num - first_col) as usize] = string.to_string();
-- 
2.43.0


From 3b31b933bbb4f34d67ff640e582482ab431faf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 052/106] fix: a newline at the end of the text of a shape was
 lost

---
 src/drawing.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 90cdda7..1e8b1b5 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -994,14 +994,8 @@ impl Drawing {
         // Write the <a:lstStyle> element.
         self.write_a_lst_style();
 
-        // Ensure at least one paragraph for empty text.
-        let text = if drawing_info.name.is_empty() {
-            "\n".to_string()
-        } else {
-            drawing_info.name.clone()
-        };
-
-        for text in text.lines() {
+        // Every line is a paragraph, including a blank one at the end.
+        for text in drawing_info.name.replace("\r\n", "\n").split('\n') {
             // Write the <a:p> element.
             self.write_a_p(text, shape);
         }
-- 
2.43.0


From b9717b7d1348f13853c2ea3771748170aa07b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 053/106] fix: pushing a series into a chart overwrote its
 marker and format

---
 src/chart.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 0fbbd17..3a71851 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -1255,7 +1255,7 @@ impl Chart {
         let mut series = series.clone();
 
         // The default Scatter chart has a hidden line with a standard width.
-        if self.chart_type == ChartType::Scatter {
+        if self.chart_type == ChartType::Scatter && !series.format.has_formatting() {
             series.set_format(
                 ChartFormat::new().set_line(ChartLine::new().set_width(2.25).set_hidden(true)),
             );
@@ -1263,10 +1263,11 @@ impl Chart {
 
         // Turn off markers for chart types that can have markers but don't have
         // them by default.
-        if self.chart_type == ChartType::ScatterStraight
-            || self.chart_type == ChartType::ScatterSmooth
-            || self.chart_group_type == ChartType::Line
-            || self.chart_type == ChartType::Radar
+        if series.marker.is_none()
+            && (self.chart_type == ChartType::ScatterStraight
+                || self.chart_type == ChartType::ScatterSmooth
+                || self.chart_group_type == ChartType::Line
+                || self.chart_type == ChartType::Radar)
         {
             series.marker = Some(ChartMarker::new().set_none().clone());
         }
-- 
2.43.0


From 9883892ab03dfc1334003ffcc407dfa1bed584a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 054/106] fix: the marker of a scatter series was written
 before its format

---
 src/chart.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 3a71851..46a2f7c 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3882,13 +3882,6 @@ impl Chart {
 
             self.write_series_title(&series.title);
 
-            if let Some(marker) = &series.marker {
-                if !marker.automatic {
-                    // Write the c:marker element.
-                    self.write_marker(marker);
-                }
-            }
-
             // Add default scatter line formatting to the series data unless it
             // has already been specified by the user.
             if self.chart_type == ChartType::Scatter && series.format.line.is_none() {
@@ -3900,6 +3893,13 @@ impl Chart {
             // Write the c:spPr formatting element.
             self.write_sp_pr(&series.format);
 
+            if let Some(marker) = &series.marker {
+                if !marker.automatic {
+                    // Write the c:marker element.
+                    self.write_marker(marker);
+                }
+            }
+
             // Write the point formatting for the series.
             if !series.points.is_empty() {
                 self.write_d_pt(&series.points, max_points);
-- 
2.43.0


From f8e0e340056a7acc0f20e200d24fa43f02950738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 055/106] fix: the format of a chart legend was written before
 its overlay

---
 src/chart.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 46a2f7c..3d0fcc8 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4871,14 +4871,14 @@ impl Chart {
         // Write the c:layout element.
         self.write_layout(&self.legend.layout.clone());
 
-        // Write the c:spPr formatting element.
-        self.write_sp_pr(&self.legend.format.clone());
-
         // Write the c:overlay element.
         if self.legend.has_overlay {
             self.write_overlay();
         }
 
+        // Write the c:spPr formatting element.
+        self.write_sp_pr(&self.legend.format.clone());
+
         // Pie/Doughnut charts set the "rtl" flag to "0" in the legend font even
         // though "0" is implied. To match Excel output we set it if it hasn't
         // been set by the user.
-- 
2.43.0


From ea6e768e33019c1c7c75fa282d0dc29d2d441cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 056/106] fix: the empty format of a custom data label was
 written before its text

---
 src/chart.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 3d0fcc8..63510e7 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5044,15 +5044,6 @@ impl Chart {
                 // Write the c:delete element.
                 self.write_delete();
             } else {
-                // Add empty "c:spPr", as required, for Excel compatibility.
-                if !data_label.format.has_formatting() {
-                    if let Some(font) = &data_label.font {
-                        if font.color.is_auto_or_default() {
-                            xml_empty_tag_only(&mut self.writer, "c:spPr");
-                        }
-                    }
-                }
-
                 // If a custom point has a font then it may need to be applied
                 // to the title and/or the label.
                 let mut data_label = data_label.clone();
@@ -5106,6 +5097,16 @@ impl Chart {
         // Write the c:spPr formatting element.
         self.write_sp_pr(&data_label.format);
 
+        // Add empty "c:spPr" to custom labels, as required, for Excel
+        // compatibility.
+        if data_label.is_custom && !data_label.format.has_formatting() {
+            if let Some(font) = &data_label.font {
+                if font.color.is_auto_or_default() {
+                    xml_empty_tag_only(&mut self.writer, "c:spPr");
+                }
+            }
+        }
+
         if let Some(font) = &data_label.font {
             // Write the c:txPr element.
             self.write_tx_pr(&font.clone(), false);
-- 
2.43.0


From 76a20aba7837773b8bc58dee9c48ca87b7d25e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 057/106] fix: date axes of charts had label and tick
 intervals, which only category axes can have

---
 src/chart.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 63510e7..3d53362 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4376,16 +4376,6 @@ impl Chart {
         // Write the c:lblOffset element.
         self.write_lbl_offset();
 
-        // Write the c:tickLblSkip element.
-        if x_axis.label_interval > 1 {
-            self.write_tick_lbl_skip(x_axis.label_interval);
-        }
-
-        // Write the c:tickMarkSkip element.
-        if x_axis.tick_interval > 1 {
-            self.write_tick_mark_skip(x_axis.tick_interval);
-        }
-
         // Write the c:majorUnit element.
         if !x_axis.major_unit.is_empty() {
             self.write_major_unit(&x_axis.major_unit);
-- 
2.43.0


From 3b84516c7156b8c8d0f48f94cebdef48ba310518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 058/106] fix: the strikethrough property of chart fonts was
 ignored

---
 src/chart.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index 3d53362..eb17490 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5772,6 +5772,10 @@ impl Chart {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
-- 
2.43.0


From 2840d64533e655a714b9336685b8e0d353c6b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 059/106] fix: fractional chart font sizes could be written
 with decimals

---
 src/chart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index eb17490..9fd1405 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5757,7 +5757,7 @@ impl Chart {
         }
 
         if font.size > 0.0 {
-            attributes.push(("sz", font.size.to_string()));
+            attributes.push(("sz", font.size.round().to_string()));
         }
 
         if let Some(boolean) = font.bold {
-- 
2.43.0


From 1f6633dd33472f115f3b7dfa73424a5a0a802e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 060/106] fix: a chart title set to a range kept a previous
 text

---
 src/chart.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 9fd1405..0210079 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8854,7 +8854,9 @@ impl ChartTitle {
 
         // If the name didn't convert to a populated range then it is probably
         // just a simple string title.
-        if !self.range.has_data() {
+        if self.range.has_data() {
+            self.name.clear();
+        } else {
             self.name.clone_from(&self.range.range_string);
         }
 
-- 
2.43.0


From b56d4cadd9669b433e3fa43329f77392341a2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 061/106] fix: the font of a chart title from a range was lost
 when it also had a format

---
 src/chart.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 0210079..3b20939 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -6232,7 +6232,9 @@ impl Chart {
         if title.format.has_formatting() {
             // Write the c:spPr formatting element.
             self.write_sp_pr(&title.format.clone());
-        } else {
+        }
+
+        if !title.format.has_formatting() || title.font != ChartFont::default() {
             // Write the c:txPr element.
             self.write_tx_pr(&title.font, title.is_horizontal);
         }
-- 
2.43.0


From 082d478c7140a4460cf916b661cc432f9cbb5820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 062/106] fix: the largest allowed trendline order and period
 were refused

---
 src/chart.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 3b20939..83643d8 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2722,7 +2722,7 @@ impl Chart {
 
             // Validate Polynomial trendline range.
             if let ChartTrendlineType::Polynomial(order) = series.trendline.trend_type {
-                if !(2..6).contains(&order) {
+                if !(2..=6).contains(&order) {
                     return Err(XlsxError::ChartError(
                         "Chart series Polynomial trendline order must be in the Excel range 2-6"
                             .to_string(),
@@ -2732,7 +2732,7 @@ impl Chart {
 
             // Validate Moving Average trendline range.
             if let ChartTrendlineType::MovingAverage(period) = series.trendline.trend_type {
-                if !(2..4).contains(&period) {
+                if !(2..=4).contains(&period) {
                     return Err(XlsxError::ChartError(
                         "Chart series Moving Average trendline period must be in the Excel range 2-4"
                             .to_string(),
-- 
2.43.0


From c8666a0f511a765b5209088f6db1802daaaa9724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 063/106] fix: the gap and overlap of primary chart series were
 applied to the secondary series

---
 src/chart.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index 83643d8..ed74720 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3175,6 +3175,10 @@ impl Chart {
         // Write the c:grouping element.
         self.write_grouping();
 
+        // The gap and overlap are set from the series of each axis group.
+        let default_gap = self.gap;
+        let default_overlap = self.overlap;
+
         // Write the c:ser elements.
         self.write_series(&series);
 
@@ -3186,6 +3190,9 @@ impl Chart {
         // Write the c:overlap element.
         self.write_overlap();
 
+        self.gap = default_gap;
+        self.overlap = default_overlap;
+
         // Write the c:axId elements.
         self.write_ax_ids(primary_axis);
 
@@ -3208,6 +3215,10 @@ impl Chart {
         // Write the c:grouping element.
         self.write_grouping();
 
+        // The gap and overlap are set from the series of each axis group.
+        let default_gap = self.gap;
+        let default_overlap = self.overlap;
+
         // Write the c:ser elements.
         self.write_series(&series);
 
@@ -3219,6 +3230,9 @@ impl Chart {
         // Write the c:overlap element.
         self.write_overlap();
 
+        self.gap = default_gap;
+        self.overlap = default_overlap;
+
         // Write the c:axId elements.
         self.write_ax_ids(primary_axis);
 
-- 
2.43.0


From 86d72cf0aeedce5a3b511d114b5320efc7a321ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 064/106] fix: a date axis set for the secondary axis of a
 chart was ignored

---
 src/chart.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index ed74720..c2413da 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3612,7 +3612,9 @@ impl Chart {
                     // Write the c:valAx element.
                     self.write_val_ax(&x_axis, &y_axis, self.axis2_ids);
 
-                    if self.x_axis.axis_type == ChartAxisType::Date {
+                    if self.x_axis.axis_type == ChartAxisType::Date
+                        || self.x2_axis.axis_type == ChartAxisType::Date
+                    {
                         // Write the c:dateAx element.
                         self.write_date_ax(&x_axis, &y_axis, self.axis2_ids);
                     } else {
-- 
2.43.0


From f74f6c00b5435e874a8ef1455f9e6053000bec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 065/106] fix: series options that the chart type cannot have
 were written to the chart

---
 src/chart.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index c2413da..2b505cb 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2856,7 +2856,7 @@ impl Chart {
         // Check for deleted trendlines in legend. These are indexed after the
         // series they belong to.
         for series in &self.series {
-            if series.trendline.trend_type != ChartTrendlineType::None {
+            if self.has_trendline(series) {
                 if series.trendline.delete_from_legend {
                     deleted_entries.push(index);
                 }
@@ -2868,6 +2868,15 @@ impl Chart {
         deleted_entries
     }
 
+    // Check if a series has a trendline and the chart type supports it.
+    fn has_trendline(&self, series: &ChartSeries) -> bool {
+        series.trendline.trend_type != ChartTrendlineType::None
+            && !matches!(
+                self.chart_group_type,
+                ChartType::Pie | ChartType::Doughnut | ChartType::Radar
+            )
+    }
+
     // Check if the primary chart or optional combined chart have a secondary
     // data series.
     fn check_for_secondary_axis(&mut self) {
@@ -3810,15 +3819,23 @@ impl Chart {
             // Write the c:spPr element.
             self.write_sp_pr(&series.format);
 
+            // Write the c:marker element, for the charts that have markers.
             if let Some(marker) = &series.marker {
-                if !marker.automatic {
-                    // Write the c:marker element.
+                if !marker.automatic
+                    && matches!(
+                        self.chart_group_type,
+                        ChartType::Line | ChartType::Radar | ChartType::Stock
+                    )
+                {
                     self.write_marker(marker);
                 }
             }
 
+            // Only Bar and Column charts can invert negative values.
+            let can_invert = matches!(self.chart_group_type, ChartType::Bar | ChartType::Column);
+
             // Write the c:invertIfNegative element.
-            if series.invert_if_negative {
+            if series.invert_if_negative && can_invert {
                 self.write_invert_if_negative();
             }
 
@@ -3832,12 +3849,18 @@ impl Chart {
                 self.write_data_labels(data_label, &series.custom_data_labels, max_points);
             }
 
-            if series.trendline.trend_type != ChartTrendlineType::None {
+            if self.has_trendline(series) {
                 // Write the c:trendline element.
                 self.write_trendline(&series.trendline);
             }
 
-            if self.chart_group_type == ChartType::Bar {
+            // Write the error bars, for the charts that can have them.
+            if matches!(
+                self.chart_group_type,
+                ChartType::Pie | ChartType::Doughnut | ChartType::Radar
+            ) {
+                // No error bars.
+            } else if self.chart_group_type == ChartType::Bar {
                 if let Some(error_bars) = &series.x_error_bars {
                     // Write the c:errBars element.
                     self.write_error_bar("", error_bars);
@@ -3863,7 +3886,7 @@ impl Chart {
             // Write the c:val element.
             self.write_val(&series.value_range);
 
-            if !series.inverted_color.is_auto_or_default() {
+            if !series.inverted_color.is_auto_or_default() && can_invert {
                 // Write the c:extLst element for the inverted fill color.
                 self.write_extension_list(series.inverted_color);
             }
-- 
2.43.0


From a20dd0fdfa0166abac0d1eba53cb542e5bd82362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 066/106] fix: the legend entries deleted for secondary and
 combined chart series were wrong

---
 src/chart.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 2b505cb..02c30a2 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2844,8 +2844,24 @@ impl Chart {
         let mut deleted_entries = vec![];
         let mut index = 0;
 
+        // The series, and any combined series, are indexed in the order that
+        // they are written, which is primary axis first.
+        let mut all_series = vec![];
+        for chart in [Some(self), self.combined_chart.as_deref()]
+            .into_iter()
+            .flatten()
+        {
+            for secondary_axis in [false, true] {
+                for series in &chart.series {
+                    if series.secondary_axis == secondary_axis {
+                        all_series.push((chart, series));
+                    }
+                }
+            }
+        }
+
         // Check for deleted series in legend.
-        for series in &self.series {
+        for (_, series) in &all_series {
             if series.delete_from_legend {
                 deleted_entries.push(index);
             }
@@ -2855,8 +2871,8 @@ impl Chart {
 
         // Check for deleted trendlines in legend. These are indexed after the
         // series they belong to.
-        for series in &self.series {
-            if self.has_trendline(series) {
+        for (chart, series) in &all_series {
+            if chart.has_trendline(series) {
                 if series.trendline.delete_from_legend {
                     deleted_entries.push(index);
                 }
-- 
2.43.0


From 1500963fb61b1f3a24ce3ddace22dea2655ca42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 067/106] fix: a data label with only the series name also
 showed the value

---
 src/chart.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chart.rs b/src/chart.rs
index 02c30a2..a950ca9 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5173,6 +5173,7 @@ impl Chart {
         if data_label.show_value
             || (!data_label.is_custom
                 && !data_label.show_category_name
+                && !data_label.show_series_name
                 && !data_label.show_percentage)
         {
             // Write the c:showVal element.
-- 
2.43.0


From 1086613b8b3c1f45883b971374461563c21d4396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 068/106] fix: turning off or resetting a chart marker had no
 effect after other marker settings

---
 src/chart.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index a950ca9..8916d6e 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -9260,6 +9260,7 @@ impl ChartMarker {
     ///
     pub fn set_automatic(&mut self) -> &mut ChartMarker {
         self.automatic = true;
+        self.none = false;
         self
     }
 
@@ -9270,6 +9271,8 @@ impl ChartMarker {
     ///
     pub fn set_none(&mut self) -> &mut ChartMarker {
         self.none = true;
+        self.automatic = false;
+        self.marker_type = None;
         self
     }
 
-- 
2.43.0


From e4687a1a19a432cd2eab4884df06b9a798f391dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 069/106] fix: a chart marker without a type had an invalid
 empty symbol

---
 src/chart.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 8916d6e..c2f661f 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5643,15 +5643,16 @@ impl Chart {
 
     // Write the <c:symbol> element.
     fn write_symbol(&mut self, marker: &ChartMarker) {
-        let mut attributes = vec![];
-
-        if let Some(marker_type) = marker.marker_type {
-            attributes.push(("val", marker_type.to_string()));
+        let symbol = if let Some(marker_type) = marker.marker_type {
+            marker_type.to_string()
         } else if marker.none {
-            attributes.push(("val", "none".to_string()));
-        }
+            "none".to_string()
+        } else {
+            // Use the automatic symbol.
+            return;
+        };
 
-        xml_empty_tag(&mut self.writer, "c:symbol", &attributes);
+        xml_empty_tag(&mut self.writer, "c:symbol", &[("val", symbol)]);
     }
 
     // Write the <c:size> element.
-- 
2.43.0


From 88a463a67d0d0cf3cdf38139d1297403726bdbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 070/106] fix: the text of secondary axis titles was missing
 from chart caches

---
 src/workbook.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 08f7ac1..3ed4feb 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2471,6 +2471,8 @@ impl Workbook {
         Self::insert_to_chart_cache(&chart.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.x_axis.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.y_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.x2_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.y2_axis.title.range, chart_caches);
 
         for series in &chart.series {
             Self::insert_to_chart_cache(&series.title.range, chart_caches);
@@ -2501,6 +2503,8 @@ impl Workbook {
         Self::update_range_cache(&mut chart.title.range, chart_caches);
         Self::update_range_cache(&mut chart.x_axis.title.range, chart_caches);
         Self::update_range_cache(&mut chart.y_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.x2_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.y2_axis.title.range, chart_caches);
 
         for series in &mut chart.series {
             Self::update_range_cache(&mut series.title.range, chart_caches);
-- 
2.43.0


From 64506a2764b753f4b54bace24b227703aa66f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:07 +0000
Subject: [PATCH 071/106] fix: data label space and newline separators had an
 extra space and comma could not be restored

---
 src/chart.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index c2f661f..0477696 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5590,7 +5590,13 @@ impl Chart {
 
     // Write the <c:separator> element.
     fn write_separator(&mut self, separator: char) {
-        xml_data_element_only(&mut self.writer, "c:separator", &format!("{separator} "));
+        // The whitespace separators aren't followed by a space.
+        let separator = match separator {
+            ' ' | '\n' => separator.to_string(),
+            _ => format!("{separator} "),
+        };
+
+        xml_data_element_only(&mut self.writer, "c:separator", &separator);
     }
 
     // Write the <c:showLeaderLines> element for Excel 2007 (mainly only for Pie
@@ -10071,8 +10077,8 @@ impl ChartDataLabel {
     /// `separator` - The label separator character.
     ///
     pub fn set_separator(&mut self, separator: char) -> &mut ChartDataLabel {
-        // Accept valid separators only apart from comma which is the default.
-        if ";. \n".contains(separator) {
+        // Accept valid separators only.
+        if ",;. \n".contains(separator) {
             self.separator = separator;
         }
 
-- 
2.43.0


From ad991e6ad7cd590854d0a5eebc07fa18a7b57675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 072/106] fix: a chart marker reset to automatic kept its type

---
 src/chart.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chart.rs b/src/chart.rs
index 0477696..620ef32 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -9268,6 +9268,7 @@ impl ChartMarker {
     pub fn set_automatic(&mut self) -> &mut ChartMarker {
         self.automatic = true;
         self.none = false;
+        self.marker_type = None;
         self
     }
 
-- 
2.43.0


From 643dd95f5aa9f1ec7074b50ad3452a5a14297bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 073/106] fix: chart caches of ranges with several columns were
 misaligned after an empty row

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index a9561aa..23ab9f3 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17017,7 +17017,7 @@ impl Worksheet {
                         }
                     }
                 }
-                None => data.push(String::new()),
+                None => data.extend((first_col..=last_col).map(|_| String::new())),
             }
         }
 
-- 
2.43.0


From b3880dde505306db04131c50799ed6a39f4c5823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 074/106] fix: strings such as "inf" were written as numbers in
 chart caches

---
 src/chart.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 620ef32..0aa0631 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4179,10 +4179,9 @@ impl Chart {
             if !value.is_empty() {
                 // Non numeric values in value/number caches are treated as zero
                 // by Excel.
-                if value.parse::<f64>().is_err() {
-                    self.write_pt(index, "0");
-                } else {
-                    self.write_pt(index, value);
+                match value.parse::<f64>() {
+                    Ok(number) if number.is_finite() => self.write_pt(index, value),
+                    _ => self.write_pt(index, "0"),
                 }
             }
         }
-- 
2.43.0


From e5d43f3651a185c1627d2a2b38e699825f9cb29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 075/106] fix: the series of a combined chart were not
 validated and could panic on saving

---
 src/chart.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index 0aa0631..18bbd4b 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2741,6 +2741,13 @@ impl Chart {
             }
         }
 
+        // Validate the series of a combined chart, if any.
+        if let Some(combined_chart) = &mut self.combined_chart {
+            if !combined_chart.series.is_empty() {
+                combined_chart.validate()?;
+            }
+        }
+
         Ok(self)
     }
 
-- 
2.43.0


From 1d014cf09943244bf01d12f7f85fc25e83897687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 076/106] fix: negative and NaN seconds of a time were accepted

---
 src/datetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 32b9f0d..1b0927d 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -976,7 +976,7 @@ impl ExcelDateTime {
         }
 
         // Excel only supports milli-seconds.
-        if sec > 59.999 {
+        if !(0.0..=59.999).contains(&sec) {
             return Err(XlsxError::DateTimeRangeError(format!(
                 "Seconds: '{sec}' outside Excel range of 0-59.999"
             )));
-- 
2.43.0


From 4595f2757f41f77c5d7d96b4af23892ea0ec2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 077/106] fix: the seconds of a parsed time with a positive
 timezone offset were lost

---
 src/datetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 1b0927d..f7d7273 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -243,7 +243,7 @@ impl ExcelDateTime {
     ///
     #[allow(clippy::get_first)]
     pub fn parse_from_str(datetime: &str) -> Result<ExcelDateTime, XlsxError> {
-        let date_parts: Vec<&str> = datetime.trim().split(&['-', 'T', 'Z', ' ', ':']).collect();
+        let date_parts: Vec<&str> = datetime.trim().split(&['-', '+', 'T', 'Z', ' ', ':']).collect();
 
         // Match date and optional time.
         if datetime.contains('-') {
-- 
2.43.0


From 74943ad422e3bec396854e7752ee21a3f13a0316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 078/106] fix: serial datetimes, times and fractional seconds
 gave invalid property dates

---
 src/datetime.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index f7d7273..aac3031 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -30,6 +30,7 @@ const YEAR_DAYS_4: u64 = YEAR_DAYS * 4 + 1;
 const YEAR_DAYS_100: u64 = YEAR_DAYS * 100 + 25;
 const YEAR_DAYS_400: u64 = YEAR_DAYS * 400 + 97;
 const UNIX_EPOCH_PLUS_400: i64 = 12_622_780_800;
+const UNIX_EPOCH_1899: i64 = 2_209_075_200;
 
 /// The `ExcelDateTime` struct is used to represent an Excel date and/or time.
 ///
@@ -1277,10 +1278,34 @@ impl ExcelDateTime {
 
     // Convert to UTC date in RFC 3339 format. This is used in custom
     // properties.
+    #[allow(clippy::cast_precision_loss)]
     pub(crate) fn to_rfc3339(&self) -> String {
+        let is_date = self.year != 0 && self.serial_datetime.is_none();
+        let is_time = self.hour < 24 && self.min < 60 && self.sec < 60.0;
+
+        // Serial datetimes, and times without a date or beyond the end of the
+        // day, are converted to the date and time that they stand for.
+        if !is_date || !is_time {
+            let mut seconds = (self.to_excel() * DAY_SECONDS as f64).round() as i64;
+
+            // Adjust for Excel's false 1900 leap day.
+            if seconds >= 60 * DAY_SECONDS as i64 {
+                seconds -= DAY_SECONDS as i64;
+            }
+
+            if let Ok(datetime) = Self::from_timestamp(seconds - UNIX_EPOCH_1899) {
+                return datetime.to_rfc3339();
+            }
+        }
+
         format!(
             "{}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-            self.year, self.month, self.day, self.hour, self.min, self.sec
+            self.year,
+            self.month,
+            self.day,
+            self.hour,
+            self.min,
+            self.sec.trunc()
         )
     }
 
-- 
2.43.0


From 14ec64437b7bd603333f93e8d54173999a51a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:47 +0000
Subject: [PATCH 079/106] fix: the last rows of constant memory worksheets were
 lost or written twice

---
 src/worksheet.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 23ab9f3..1ec8527 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18723,24 +18723,23 @@ impl Worksheet {
             }
         }
 
-        // Add the current row.
-        remaining_rows.push(self.current_row);
-
-        // Remove any duplicate rows.
+        // Remove any duplicate rows and the current row.
         remaining_rows.sort_unstable();
         remaining_rows.dedup();
+        remaining_rows.retain(|row| *row > self.current_row);
 
-        // If there is data to write (and not just write-ahead or rows) we move
-        // the final row ahead by one. This will start any subsequent write() on
-        // the next row, after a resave.
-        if self.data_table.contains_key(&self.current_row) {
-            remaining_rows.push(1 + *remaining_rows.last().unwrap());
-        }
-
-        // Flush all the remaining rows.
+        // Flush the current row and all the remaining rows except the last.
         for remaining_row in remaining_rows {
             self.flush_data_row(remaining_row);
         }
+
+        // Flush the last row. If there is data to write we move the final row
+        // ahead by one. This will start any subsequent write() on the next row,
+        // after a resave.
+        let last_row = self.current_row;
+        if self.data_table.contains_key(&last_row) || self.changed_rows.contains_key(&last_row) {
+            self.flush_data_row(last_row + 1);
+        }
     }
 
     // Flush all constant memory data up to the next target row.
-- 
2.43.0


From 8bc5ada8cefcbe987019e3222a1301062eafa486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:47 +0000
Subject: [PATCH 080/106] fix: rows written ahead in constant memory mode could
 be outside the sheet data

---
 src/worksheet.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1ec8527..484f124 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17478,6 +17478,11 @@ impl Worksheet {
         self.write_cols();
 
         // Write the <sheetData> element.
+        #[cfg(feature = "constant_memory")]
+        if self.current_row > 0 || !self.write_ahead.is_empty() {
+            self.has_sheet_data = true;
+        }
+
         if !self.has_sheet_data
             && self.data_table.is_empty()
             && self.notes.is_empty()
-- 
2.43.0


From 3682d1edb83d49960f90ecbcfd6d23c5edfbeb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 081/106] fix: row outlines were missing in constant memory
 worksheets

---
 src/worksheet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 484f124..cf83d33 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19117,6 +19117,14 @@ impl Worksheet {
             {
                 attributes.push(("customHeight", "1".to_string()));
             }
+
+            if row_options.level > 0 {
+                attributes.push(("outlineLevel", row_options.level.to_string()));
+            }
+
+            if row_options.collapsed {
+                attributes.push(("collapsed", "1".to_string()));
+            }
         } else if self.user_default_row_height != DEFAULT_ROW_HEIGHT {
             attributes.push(("ht", self.user_default_row_height.to_string()));
             attributes.push(("customHeight", "1".to_string()));
-- 
2.43.0


From 17db38524fe6137d678b157989b1bbc036cd42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:44 +0000
Subject: [PATCH 082/106] fix: embedded images in previous rows of constant
 memory worksheets caused a panic

---
 src/image.rs     | 25 +++++++++++++++++++++++++
 src/workbook.rs  | 42 ++++++++++++++++++------------------------
 src/worksheet.rs | 12 ++++++++++++
 3 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 2f52c3a..f720dbd 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -9,6 +9,7 @@
 mod tests;
 
 use std::collections::hash_map::DefaultHasher;
+use std::collections::HashMap;
 use std::fs::File;
 use std::hash::{Hash, Hasher};
 use std::io::BufReader;
@@ -1072,6 +1073,30 @@ impl Image {
     }
 }
 
+// The unique embedded images in a workbook, and their 1-indexed ids. This is
+// shared with "constant memory" worksheets since they need the ids before the
+// file is saved.
+#[derive(Default)]
+pub(crate) struct EmbeddedImageTable {
+    image_ids: HashMap<String, u32>,
+    pub(crate) images: Vec<Image>,
+}
+
+impl EmbeddedImageTable {
+    // Get the workbook id of an embedded image, adding it if required.
+    pub(crate) fn image_id(&mut self, image: &Image) -> u32 {
+        match self.image_ids.get(&image.hash) {
+            Some(image_id) => *image_id,
+            None => {
+                self.images.push(image.clone());
+                let image_id = self.images.len() as u32;
+                self.image_ids.insert(image.hash.clone(), image_id);
+                image_id
+            }
+        }
+    }
+}
+
 // Trait for objects that have a component stored in the drawing.xml file.
 impl DrawingObject for Image {
     fn x_offset(&self) -> u32 {
diff --git a/src/workbook.rs b/src/workbook.rs
index 3ed4feb..1c5d5c4 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -239,6 +239,7 @@ use std::path::PathBuf;
 use crate::error::XlsxError;
 use crate::feature_property_bag::FeaturePropertyBagTypes;
 use crate::format::Format;
+use crate::image::EmbeddedImageTable;
 use crate::packager::Packager;
 use crate::packager::PackagerOptions;
 use crate::shared_strings_table::SharedStringsTable;
@@ -336,6 +337,7 @@ pub struct Workbook {
     pub(crate) num_formats: Vec<String>,
     pub(crate) has_hyperlink_style: bool,
     pub(crate) embedded_images: Vec<Image>,
+    embedded_image_table: Arc<Mutex<EmbeddedImageTable>>,
     pub(crate) vba_project: Vec<u8>,
     pub(crate) vba_signature: Vec<u8>,
     pub(crate) vba_codename: Option<String>,
@@ -428,6 +430,7 @@ impl Workbook {
             string_table: Arc::new(Mutex::new(SharedStringsTable::new())),
             dxf_indices: HashMap::new(),
             embedded_images: vec![],
+            embedded_image_table: Arc::new(Mutex::new(EmbeddedImageTable::default())),
             is_xlsm_file: false,
             vba_project: vec![],
             vba_signature: vec![],
@@ -577,6 +580,8 @@ impl Workbook {
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
+        worksheet.embedded_image_table = Arc::clone(&self.embedded_image_table);
+
         self.worksheets.push(worksheet);
         let worksheet = self.worksheets.last_mut().unwrap();
 
@@ -650,6 +655,8 @@ impl Workbook {
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
+        worksheet.embedded_image_table = Arc::clone(&self.embedded_image_table);
+
         worksheet.string_table = Arc::clone(&self.string_table);
         worksheet.has_workbook_global_sst = true;
 
@@ -698,6 +705,8 @@ impl Workbook {
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
+        worksheet.embedded_image_table = Arc::clone(&self.embedded_image_table);
+
         worksheet
     }
 
@@ -740,6 +749,8 @@ impl Workbook {
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
+        worksheet.embedded_image_table = Arc::clone(&self.embedded_image_table);
+
         worksheet.string_table = Arc::clone(&self.string_table);
         worksheet.has_workbook_global_sst = true;
 
@@ -2290,34 +2301,17 @@ impl Workbook {
     // map these local references to a workbook/global id that takes into
     // account duplicate images.
     fn prepare_embedded_images(&mut self) {
-        let mut embedded_images = vec![];
-        let mut image_ids: HashMap<String, u32> = HashMap::new();
-        let mut global_image_id = 0;
+        let mut image_table = self.embedded_image_table.lock().unwrap();
 
         for worksheet in &mut self.worksheets {
-            if worksheet.embedded_images.is_empty() {
-                continue;
-            }
-
-            let mut global_embedded_image_ids = vec![];
-            for image in &worksheet.embedded_images {
-                let image_id = match image_ids.get(&image.hash) {
-                    Some(image_id) => *image_id,
-                    None => {
-                        global_image_id += 1;
-                        embedded_images.push(image.clone());
-                        image_ids.insert(image.hash.clone(), global_image_id);
-                        global_image_id
-                    }
-                };
-
-                global_embedded_image_ids.push(image_id);
-            }
-
-            worksheet.global_embedded_image_indices = global_embedded_image_ids;
+            worksheet.global_embedded_image_indices = worksheet
+                .embedded_images
+                .iter()
+                .map(|image| image_table.image_id(image))
+                .collect();
         }
 
-        self.embedded_images = embedded_images;
+        self.embedded_images.clone_from(&image_table.images);
     }
 
     // Convert the images in the workbooks into drawing files and rel links.
diff --git a/src/worksheet.rs b/src/worksheet.rs
index cf83d33..64c0911 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1388,6 +1388,7 @@ use crate::drawing::{Drawing, DrawingCoordinates, DrawingInfo, DrawingObject, Dr
 use crate::error::XlsxError;
 use crate::format::Format;
 use crate::formula::Formula;
+use crate::image::EmbeddedImageTable;
 use crate::shared_strings_table::SharedStringsTable;
 use crate::styles::Styles;
 use crate::vml::VmlInfo;
@@ -1524,6 +1525,7 @@ pub struct Worksheet {
     pub(crate) has_embedded_image_descriptions: bool,
     pub(crate) embedded_images: Vec<Image>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
+    pub(crate) embedded_image_table: Arc<Mutex<EmbeddedImageTable>>,
     pub(crate) vba_codename: Option<String>,
     pub(crate) note_authors: BTreeMap<String, usize>,
     pub(crate) vml_data_id: String,
@@ -1837,6 +1839,7 @@ impl Worksheet {
             embedded_images: vec![],
             embedded_image_ids: HashMap::new(),
             global_embedded_image_indices: vec![],
+            embedded_image_table: Arc::new(Mutex::new(EmbeddedImageTable::default())),
             has_embedded_image_descriptions: false,
             has_sparklines: false,
             sparklines: vec![],
@@ -15453,6 +15456,15 @@ impl Worksheet {
                 let image_id = self.embedded_image_ids.len() as u32;
                 self.embedded_image_ids.insert(image.hash.clone(), image_id);
                 self.embedded_images.push(image.clone());
+
+                // In constant memory mode the cell is written before the file
+                // is saved so the global image index is needed immediately.
+                if self.use_constant_memory {
+                    let mut image_table = self.embedded_image_table.lock().unwrap();
+                    self.global_embedded_image_indices
+                        .push(image_table.image_id(image));
+                }
+
                 image_id
             }
         };
-- 
2.43.0


From ad187519aba3a12660a1bb05efc6f042cc73556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 083/106] fix: the dimension of a worksheet with data across
 the first row was A1

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 64c0911..a26ea27 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17809,6 +17809,8 @@ impl Worksheet {
             && self.dimensions.first_col == 0
             && self.dimensions.last_row == 0
             && self.dimensions.last_col == COL_MAX - 1
+            && self.data_table.is_empty()
+            && !self.has_sheet_data
         {
             range = "A1".to_string();
         }
-- 
2.43.0


From aaea1e268f0c1f6156f77041372d47ebb0329e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 084/106] fix: refused merged ranges overwrote cells and
 blocked other ranges

---
 src/worksheet.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index a26ea27..06027a8 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -4997,6 +4997,24 @@ impl Worksheet {
             return Err(XlsxError::MergeRangeSingleCell);
         }
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the merged range overlaps any previous merged range. This is
+        // a major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.merged_cells.get(&(row, col)) {
+                    let previous_cell_range = self.merged_ranges.get(*index).unwrap();
+                    return Err(XlsxError::MergeRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
         // Write the first cell in the range.
         self.write_string_with_format(first_row, first_col, string, format)?;
 
@@ -5015,29 +5033,14 @@ impl Worksheet {
         }
         self.set_writing_ahead(false);
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the merged range overlaps any previous merged range. This is
-        // a major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the merge range if everything was okay.
         let new_index = self.merged_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.merged_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.merged_ranges.get(*index).unwrap();
-                        return Err(XlsxError::MergeRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.merged_cells.insert((row, col), new_index),
-                };
+                self.merged_cells.insert((row, col), new_index);
             }
         }
 
-        // Store the merge range if everything was okay.
         self.merged_ranges.push(cell_range);
 
         Ok(self)
-- 
2.43.0


From 99445fb730bb36bbdbd969145174f1a1cab5e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 085/106] fix: refused or replaced autofilters weren't removed

---
 src/worksheet.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 06027a8..221b82b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8458,23 +8458,11 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
-        // Store the defined name information.
-        self.autofilter_defined_name.in_use = true;
-        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
-        self.autofilter_defined_name.first_row = first_row;
-        self.autofilter_defined_name.first_col = first_col;
-        self.autofilter_defined_name.last_row = last_row;
-        self.autofilter_defined_name.last_col = last_col;
-
         let autofilter_area = CellRange::new(first_row, first_col, last_row, last_col);
 
-        // Clear any previous filters.
-        self.filter_conditions = BTreeMap::new();
-
-        // Store the cells with the autofilter dropdown for the autofit calc.
+        // Check that the worksheet autofilter doesn't overlap a table
+        // autofilter.
         for col in first_col..=last_col {
-            // Check that the worksheet autofilter doesn't overlap a table
-            // autofilter.
             let filter_data = self.cells_with_autofilter.get(&(first_row, col));
             if let Some((filter_type, filter_range)) = filter_data {
                 if *filter_type == FilterType::Table {
@@ -8484,7 +8472,23 @@ impl Worksheet {
                     ));
                 }
             }
+        }
 
+        // Store the defined name information.
+        self.autofilter_defined_name.in_use = true;
+        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
+        self.autofilter_defined_name.first_row = first_row;
+        self.autofilter_defined_name.first_col = first_col;
+        self.autofilter_defined_name.last_row = last_row;
+        self.autofilter_defined_name.last_col = last_col;
+
+        // Clear any previous filters.
+        self.filter_conditions = BTreeMap::new();
+        self.cells_with_autofilter
+            .retain(|_, (filter_type, _)| *filter_type != FilterType::Worksheet);
+
+        // Store the cells with the autofilter dropdown for the autofit calc.
+        for col in first_col..=last_col {
             self.cells_with_autofilter.insert(
                 (first_row, col),
                 (FilterType::Worksheet, autofilter_area.clone()),
-- 
2.43.0


From d73e2c95a0d2968ebc8bb9b803f86a5d798e76a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 086/106] fix: refused tables overwrote cells and blocked other
 ranges

---
 src/worksheet.rs | 64 +++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 221b82b..78b3f4c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8818,6 +8818,40 @@ impl Worksheet {
         let first_data_row = table.first_data_row();
         let last_data_row = table.last_data_row();
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the table range overlaps any previous table range. This is a
+        // major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.table_cells.get(&(row, col)) {
+                    let previous_cell_range = self.table_ranges.get(*index).unwrap();
+                    return Err(XlsxError::TableRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
+        // Check that the table autofilter doesn't overlap the worksheet
+        // autofilter.
+        if table.show_autofilter {
+            for col in first_col..=last_col {
+                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
+                if let Some((filter_type, filter_range)) = filter_data {
+                    if *filter_type == FilterType::Worksheet {
+                        return Err(XlsxError::AutofilterRangeOverlaps(
+                            table.cell_range.to_error_string(),
+                            filter_range.to_error_string(),
+                        ));
+                    }
+                }
+            }
+        }
+
         // Write the worksheet information required for each column.
         for (offset, column) in table.columns.iter_mut().enumerate() {
             let col = first_col + offset as u16;
@@ -8880,43 +8914,17 @@ impl Worksheet {
             self.set_writing_ahead(false);
         }
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the table range overlaps any previous table range. This is a
-        // major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the cells in the table range for the overlap test.
         let new_index = self.table_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.table_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.table_ranges.get(*index).unwrap();
-                        return Err(XlsxError::TableRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.table_cells.insert((row, col), new_index),
-                };
+                self.table_cells.insert((row, col), new_index);
             }
         }
 
         // Store the cells with the autofilter dropdown for the autofit calc.
         if table.show_autofilter {
             for col in first_col..=last_col {
-                // Check that the table autofilter doesn't overlap the worksheet
-                // autofilter.
-                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
-                if let Some((filter_type, filter_range)) = filter_data {
-                    if *filter_type == FilterType::Worksheet {
-                        return Err(XlsxError::AutofilterRangeOverlaps(
-                            table.cell_range.to_error_string(),
-                            filter_range.to_error_string(),
-                        ));
-                    }
-                }
-
                 self.cells_with_autofilter.insert(
                     (first_row, col),
                     (FilterType::Table, table.cell_range.clone()),
-- 
2.43.0


From 8669a145f1c58389f62f24b7c2480585e350ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 087/106] fix: tables with a header and total row only weren't
 refused and could panic

---
 src/worksheet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 78b3f4c..f70062c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8801,8 +8801,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
-        // Check that the table has at least one valid row.
-        if first_row == last_row && table.show_header_row {
+        // Check that the table has at least one valid row in addition to any
+        // header and total rows.
+        let num_extra_rows = u32::from(table.show_header_row) + u32::from(table.show_total_row);
+        if last_row - first_row < num_extra_rows {
             return Err(XlsxError::TableError(
                 "Table must have at least one row".to_string(),
             ));
-- 
2.43.0


From 000e40f7923567984fa39bc85e976a07d50e37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 088/106] fix: tables without a header but with an autofilter
 blocked worksheet autofilters

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f70062c..b0ac03d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8840,7 +8840,7 @@ impl Worksheet {
 
         // Check that the table autofilter doesn't overlap the worksheet
         // autofilter.
-        if table.show_autofilter {
+        if table.show_autofilter && table.show_header_row {
             for col in first_col..=last_col {
                 let filter_data = self.cells_with_autofilter.get(&(first_row, col));
                 if let Some((filter_type, filter_range)) = filter_data {
@@ -8925,7 +8925,7 @@ impl Worksheet {
         }
 
         // Store the cells with the autofilter dropdown for the autofit calc.
-        if table.show_autofilter {
+        if table.show_autofilter && table.show_header_row {
             for col in first_col..=last_col {
                 self.cells_with_autofilter.insert(
                     (first_row, col),
-- 
2.43.0


From 8453d9729f4a3749d8ddb827a523430a987eb0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 089/106] fix: sparkline groups that don't fit the order of
 their data read cells outside of it

---
 src/sparkline.rs | 2 +-
 src/worksheet.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sparkline.rs b/src/sparkline.rs
index 762efd7..7a43132 100644
--- a/src/sparkline.rs
+++ b/src/sparkline.rs
@@ -527,7 +527,7 @@ pub struct Sparkline {
     pub(crate) custom_max: Option<f64>,
     pub(crate) group_max: bool,
     pub(crate) group_min: bool,
-    data_row_order: bool,
+    pub(crate) data_row_order: bool,
 }
 
 #[allow(clippy::new_without_default)]
diff --git a/src/worksheet.rs b/src/worksheet.rs
index b0ac03d..e1fa031 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -9498,7 +9498,14 @@ impl Worksheet {
         let col_range = (last_col - first_col + 1) as usize;
         let num_cells = std::cmp::max(row_range, col_range);
         let (num_rows, num_cols) = sparkline.data_range.number_of_range_points();
-        if num_cells != num_rows && num_cells != num_cols {
+        let num_ranges = if sparkline.data_row_order {
+            num_rows
+        } else {
+            num_cols
+        };
+
+        // The group must be a 1D range with a cell for each row (or column) of data.
+        if num_cells != num_ranges || (row_range > 1 && col_range > 1) {
             let cell_range = format!("({first_row}, {first_col}, {last_row}, {last_col})");
             let sparkline_range = sparkline.data_range.error_range();
             return Err(XlsxError::SparklineError(format!(
-- 
2.43.0


From b4ab0b58ca469912b2607d74f101ba1e88d644de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:57 +0000
Subject: [PATCH 090/106] fix: rows hidden by a custom filter or a number in a
 list filter weren't those that Excel hides

---
 src/filter.rs    | 43 +++++++++++++++++++++++++++++++++++++++++++
 src/worksheet.rs | 46 +++++++++++++++++++++++-----------------------
 2 files changed, 66 insertions(+), 23 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 25ecd8c..340f39f 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -778,6 +778,28 @@ pub enum FilterCriteria {
 
 #[allow(clippy::match_same_arms)]
 impl FilterCriteria {
+    // Check for a criteria that compares the order of values.
+    pub(crate) fn is_ordering(self) -> bool {
+        matches!(
+            self,
+            FilterCriteria::LessThan
+                | FilterCriteria::GreaterThan
+                | FilterCriteria::LessThanOrEqualTo
+                | FilterCriteria::GreaterThanOrEqualTo
+        )
+    }
+
+    // Check for a criteria that is the opposite of another criteria.
+    pub(crate) fn is_negated(self) -> bool {
+        matches!(
+            self,
+            FilterCriteria::NotEqualTo
+                | FilterCriteria::DoesNotBeginWith
+                | FilterCriteria::DoesNotEndWith
+                | FilterCriteria::DoesNotContain
+        )
+    }
+
     pub(crate) fn operator(self) -> String {
         match self {
             FilterCriteria::EqualTo => String::new(),
@@ -852,6 +874,27 @@ impl FilterData {
         }
     }
 
+    // Get the filter value as a number. Excel doesn't differentiate between
+    // numbers and "numbers stored as strings" in a filter.
+    pub(crate) fn as_number(&self) -> Option<f64> {
+        match self.data_type {
+            FilterDataType::Number => Some(self.number),
+            FilterDataType::String => self
+                .string
+                .trim()
+                .parse()
+                .ok()
+                .filter(|number: &f64| number.is_finite()),
+        }
+    }
+
+    // Check if a custom filter matches blank cells. These match any negated
+    // criteria apart from the "match non-blanks" special condition, which Excel
+    // converts to a custom filter of `!= " "`.
+    pub(crate) fn matches_blanks(&self) -> bool {
+        self.criteria.is_negated() && !self.string.trim().is_empty()
+    }
+
     // Excel stores some of the string operators as simple regex patterns.
     pub(crate) fn value(&self) -> String {
         match self.criteria {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index e1fa031..970655b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -14868,9 +14868,7 @@ impl Worksheet {
                     }
                     CellType::Number { number, .. } => {
                         for filter in &filter_condition.list {
-                            if filter.data_type == FilterDataType::Number
-                                && number == &filter.number
-                            {
+                            if filter.as_number() == Some(*number) {
                                 return true;
                             }
                         }
@@ -14949,6 +14947,11 @@ impl Worksheet {
                         let cell_string = string.clone().to_lowercase().trim().to_string();
                         let filter_string = filter.string.to_lowercase().trim().to_string();
 
+                        // Excel doesn't order strings against numbers.
+                        if filter.criteria.is_ordering() && filter.as_number().is_some() {
+                            return false;
+                        }
+
                         match filter.criteria {
                             FilterCriteria::EqualTo => return cell_string == filter_string,
                             FilterCriteria::NotEqualTo => return cell_string != filter_string,
@@ -14980,42 +14983,39 @@ impl Worksheet {
                             }
                         }
                     }
-                    CellType::Number { number, .. } => {
-                        if filter.data_type == FilterDataType::Number {
+                    CellType::Number { number, .. } | CellType::DateTime { number, .. } => {
+                        if let Some(value) = filter.as_number() {
                             match filter.criteria {
-                                FilterCriteria::EqualTo => return *number == filter.number,
-                                FilterCriteria::LessThan => return *number < filter.number,
-                                FilterCriteria::NotEqualTo => return *number != filter.number,
-                                FilterCriteria::GreaterThan => return *number > filter.number,
-                                FilterCriteria::LessThanOrEqualTo => {
-                                    return *number <= filter.number
-                                }
-                                FilterCriteria::GreaterThanOrEqualTo => {
-                                    return *number >= filter.number
-                                }
+                                FilterCriteria::EqualTo => return *number == value,
+                                FilterCriteria::LessThan => return *number < value,
+                                FilterCriteria::NotEqualTo => return *number != value,
+                                FilterCriteria::GreaterThan => return *number > value,
+                                FilterCriteria::LessThanOrEqualTo => return *number <= value,
+                                FilterCriteria::GreaterThanOrEqualTo => return *number >= value,
                                 _ => {}
                             }
                         }
+
+                        // A number doesn't match any string criteria, so it
+                        // matches the negated ones.
+                        return filter.criteria.is_negated();
                     }
-                    CellType::Blank { .. } => {
-                        // We need to handle "match non-blanks" as a special condition.
-                        // Excel converts this to a custom filter of `!= " "`.
-                        if filter.criteria == FilterCriteria::NotEqualTo && filter.string == " " {
-                            return false;
-                        }
-                    }
+                    CellType::Blank { .. } => return filter.matches_blanks(),
                     _ => {
                         // Any existing non-blank cell should match the "non-blanks" criteria
                         // explained above.
                         if filter.criteria == FilterCriteria::NotEqualTo && filter.string == " " {
                             return true;
                         }
+
+                        return false;
                     }
                 }
             }
         }
 
-        false
+        // If there is no cell data then that qualifies as Blanks in Excel.
+        filter.matches_blanks()
     }
 
     // Process pagebreaks to sort them, remove duplicates and check the number
-- 
2.43.0


From 0fdac36e39c3ee14c83a175d7baad67e9b72d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:57 +0000
Subject: [PATCH 091/106] fix: add_custom_boolean_or() was ignored before the
 second filter and broke list filters

---
 src/filter.rs    | 4 +---
 src/worksheet.rs | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 340f39f..5946b61 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -415,7 +415,7 @@ impl FilterCondition {
     pub fn new() -> FilterCondition {
         FilterCondition {
             is_list_filter: true,
-            apply_logical_or: true,
+            apply_logical_or: false,
             should_match_blanks: false,
             list: vec![],
             custom1: None,
@@ -703,7 +703,6 @@ impl FilterCondition {
             self.custom1 = Some(value.new_filter_data(criteria));
         } else if self.custom2.is_none() {
             self.custom2 = Some(value.new_filter_data(criteria));
-            self.apply_logical_or = false;
         } else {
             eprintln!("Excel only allows 2 custom filter conditions.");
         }
@@ -721,7 +720,6 @@ impl FilterCondition {
     ///
     pub fn add_custom_boolean_or(mut self) -> FilterCondition {
         self.apply_logical_or = true;
-        self.is_list_filter = false;
         self
     }
 }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 970655b..67d9efc 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18531,7 +18531,7 @@ impl Worksheet {
     fn write_custom_filters(&mut self, filter_condition: &FilterCondition) {
         let mut attributes = vec![];
 
-        if !filter_condition.apply_logical_or {
+        if filter_condition.custom2.is_some() && !filter_condition.apply_logical_or {
             attributes.push(("and", "1".to_string()));
         }
 
-- 
2.43.0


From 1c43dde1c3ec3adc5319d55dff9e7a8512ea0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 092/106] fix: the object movement of notes and buttons was
 ignored

---
 src/vml.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/vml.rs b/src/vml.rs
index 7210c7b..fc6d6dc 100644
--- a/src/vml.rs
+++ b/src/vml.rs
@@ -8,7 +8,7 @@ mod tests;
 
 use std::io::Cursor;
 
-use crate::{drawing::DrawingInfo, ColNum, RowNum};
+use crate::{drawing::DrawingInfo, ColNum, ObjectMovement, RowNum};
 
 use crate::xmlwriter::{
     xml_data_element, xml_data_element_only, xml_empty_tag, xml_empty_tag_only, xml_end_tag,
@@ -512,6 +512,9 @@ impl Vml {
 
         xml_start_tag(&mut self.writer, "x:ClientData", &attributes);
 
+        // Write the x:MoveWithCells and x:SizeWithCells elements.
+        self.write_object_movement(vml_info);
+
         // Write the x:Anchor element.
         self.write_anchor(vml_info);
 
@@ -559,8 +562,8 @@ impl Vml {
         let attributes = [("ObjectType", "Note")];
 
         xml_start_tag(&mut self.writer, "x:ClientData", &attributes);
-        xml_empty_tag_only(&mut self.writer, "x:MoveWithCells");
-        xml_empty_tag_only(&mut self.writer, "x:SizeWithCells");
+        // Write the x:MoveWithCells and x:SizeWithCells elements.
+        self.write_object_movement(vml_info);
 
         // Write the x:Anchor element.
         self.write_anchor(vml_info);
@@ -582,6 +585,21 @@ impl Vml {
         xml_end_tag(&mut self.writer, "x:ClientData");
     }
 
+    // Write the <x:MoveWithCells> and <x:SizeWithCells> elements. Excel uses
+    // these elements to turn off the default "Move and size with cells".
+    fn write_object_movement(&mut self, vml_info: &VmlInfo) {
+        match vml_info.drawing_info.object_movement {
+            ObjectMovement::MoveAndSizeWithCells | ObjectMovement::MoveAndSizeWithCellsAfter => {}
+            ObjectMovement::MoveButDontSizeWithCells => {
+                xml_empty_tag_only(&mut self.writer, "x:SizeWithCells");
+            }
+            ObjectMovement::DontMoveOrSizeWithCells => {
+                xml_empty_tag_only(&mut self.writer, "x:MoveWithCells");
+                xml_empty_tag_only(&mut self.writer, "x:SizeWithCells");
+            }
+        }
+    }
+
     // Write the <x:Anchor> element for shape anchoring.
     fn write_anchor(&mut self, vml_info: &VmlInfo) {
         let anchor = format!(
-- 
2.43.0


From 3d596f41455c97deaafa8de4b8a87a4cf959a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:26 +0000
Subject: [PATCH 093/106] fix: buttons were not counted for the blocks of shape
 ids of a worksheet

---
 src/workbook.rs  |  6 +++---
 src/worksheet.rs | 12 +++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 1c5d5c4..967d4db 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2274,7 +2274,7 @@ impl Workbook {
 
         for worksheet in &mut self.worksheets {
             if worksheet.has_vml {
-                let note_count = worksheet.prepare_vml_objects(vml_data_id, vml_shape_id);
+                let object_count = worksheet.prepare_vml_objects(vml_data_id, vml_shape_id);
                 worksheet.add_vml_drawing_rel_link(vml_drawing_id);
                 vml_drawing_id += 1;
 
@@ -2285,8 +2285,8 @@ impl Workbook {
                 }
 
                 // Each VML should start with a shape id incremented by 1024.
-                vml_data_id += (1024 + note_count) / 1024;
-                vml_shape_id += 1024 * ((1024 + note_count) / 1024);
+                vml_data_id += (1024 + object_count) / 1024;
+                vml_shape_id += 1024 * ((1024 + object_count) / 1024);
             }
 
             if worksheet.has_header_footer_images() {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 67d9efc..f4a4afd 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16488,7 +16488,7 @@ impl Worksheet {
     // Convert buttons into VML objects.
     pub(crate) fn prepare_vml_objects(&mut self, vml_data_id: u32, vml_shape_id: u32) -> u32 {
         let mut button_id = 1;
-        let mut note_count = 0;
+        let mut object_count = 0;
 
         // Modify Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
@@ -16532,7 +16532,7 @@ impl Worksheet {
                 // Store the note vml data.
                 self.comments_vml_info.push(vml_info);
 
-                note_count += 1;
+                object_count += 1;
             }
         }
 
@@ -16556,13 +16556,15 @@ impl Worksheet {
             self.buttons_vml_info.push(vml_info);
 
             button_id += 1;
+            object_count += 1;
         }
 
         // The VML o:idmap data id contains a comma separated range when there
-        // is more than one 1024 block of comments, like this: data="1,2".
+        // is more than one 1024 block of comments and buttons, like this:
+        // data="1,2".
         let mut oid_map = vml_data_id.to_string();
 
-        for i in 0..note_count / 1024 {
+        for i in 0..object_count / 1024 {
             let next_id = vml_data_id + i + 1;
             oid_map = format!("{oid_map},{next_id}");
         }
@@ -16570,7 +16572,7 @@ impl Worksheet {
         self.vml_data_id = oid_map;
         self.vml_shape_id = vml_shape_id;
 
-        note_count
+        object_count
     }
 
     // Store the commentN.xml file linkage to the worksheets rels file.
-- 
2.43.0


From cb691135c296596c0dc063c8272bd84dcca75db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:53 +0000
Subject: [PATCH 094/106] fix: embedded image ids depended on earlier saves and
 removed worksheets

---
 src/image.rs    |  2 +-
 src/workbook.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index f720dbd..9a414cb 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1076,7 +1076,7 @@ impl Image {
 // The unique embedded images in a workbook, and their 1-indexed ids. This is
 // shared with "constant memory" worksheets since they need the ids before the
 // file is saved.
-#[derive(Default)]
+#[derive(Clone, Default)]
 pub(crate) struct EmbeddedImageTable {
     image_ids: HashMap<String, u32>,
     pub(crate) images: Vec<Image>,
diff --git a/src/workbook.rs b/src/workbook.rs
index 967d4db..6442013 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2301,9 +2301,14 @@ impl Workbook {
     // map these local references to a workbook/global id that takes into
     // account duplicate images.
     fn prepare_embedded_images(&mut self) {
-        let mut image_table = self.embedded_image_table.lock().unwrap();
+        // Start with the images of the "constant memory" worksheets since their
+        // ids have already been written. The ids of the other images are
+        // allocated for each save.
+        let mut image_table = self.embedded_image_table.lock().unwrap().clone();
+        let mut has_embedded_images = false;
 
         for worksheet in &mut self.worksheets {
+            has_embedded_images |= !worksheet.embedded_images.is_empty();
             worksheet.global_embedded_image_indices = worksheet
                 .embedded_images
                 .iter()
@@ -2311,7 +2316,10 @@ impl Workbook {
                 .collect();
         }
 
-        self.embedded_images.clone_from(&image_table.images);
+        self.embedded_images.clear();
+        if has_embedded_images {
+            self.embedded_images = image_table.images;
+        }
     }
 
     // Convert the images in the workbooks into drawing files and rel links.
-- 
2.43.0


From 9972ad4525541799cb9c6461b95d63737576a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:01 +0000
Subject: [PATCH 095/106] fix: formulas with quoted names, table references or
 user functions were changed or corrupted

---
 src/formula.rs | 124 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 76 insertions(+), 48 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index e396e73..a44c072 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -839,27 +839,16 @@ impl Formula {
     fn escape_formula(formula: &str) -> (String, bool) {
         let mut start_position = 0;
         let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut literal = FormulaLiteral::default();
         let mut has_dynamic_function = false;
         let mut escaped_formula = String::with_capacity(formula.len());
 
         for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // escaping function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Copy the string literal.
-            if in_string_literal {
-                escaped_formula.push(char);
-                continue;
-            }
-
-            // Function names are comprised of "A-Z", "0-9" and ".".
-            let is_function_char =
-                char.is_ascii_uppercase() || char.is_ascii_digit() || char == '.';
+            // Excel function names are comprised of "A-Z", "0-9" and "." but
+            // user defined names can also contain other characters. Function
+            // names in string literals, quoted sheet names and table references
+            // aren't escaped.
+            let is_function_char = !literal.contains(char) && is_name_char(char);
 
             // Simple state machine where we are either accumulating possible
             // function names in a buffer for evaluation, or copying non-function
@@ -914,26 +903,12 @@ impl Formula {
     fn copy_escaped_formula(formula: &str) -> (String, bool) {
         let mut start_position = 0;
         let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut literal = FormulaLiteral::default();
         let mut has_dynamic_function = false;
 
         for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // matching function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Ignore the string literal.
-            if in_string_literal {
-                continue;
-            }
-
-            // Function names are comprised of "A-Z", "0-9" and ".".
-            let is_function_char =
-                char.is_ascii_uppercase() || char.is_ascii_digit() || char == '.';
-            let is_function_start_char = char.is_ascii_uppercase() || char.is_ascii_digit();
+            // See the comment in escape_formula().
+            let is_function_char = !literal.contains(char) && is_name_char(char);
 
             // Simple state machine where we accumulate possible function names
             // in a buffer for evaluation.
@@ -944,6 +919,10 @@ impl Formula {
                     // If the first non function char is an opening bracket then we
                     // have found a function name.
                     if char == '(' {
+                        // Remove the existing prefixes.
+                        let token = token.strip_prefix("_xlfn.").unwrap_or(token);
+                        let token = token.strip_prefix("_xlws.").unwrap_or(token);
+
                         // Check if function is an Excel "future" function.
                         if let Some(function_type) = Self::future_functions(token) {
                             has_dynamic_function |= *function_type > 0;
@@ -952,7 +931,7 @@ impl Formula {
 
                     in_function = false;
                 }
-            } else if is_function_start_char {
+            } else if is_function_char {
                 // Match the start of a possible function name.
                 start_position = current_position;
                 in_function = true;
@@ -971,24 +950,17 @@ impl Formula {
             return self;
         }
 
-        let mut in_string_literal = false;
+        let mut literal = FormulaLiteral::default();
         let mut escaped_formula = String::with_capacity(self.formula_string.len());
 
         for char in self.formula_string.chars() {
-            // Match the start/end of string literals to avoid escaping
-            // references in strings.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Copy the string literal.
-            if in_string_literal {
-                escaped_formula.push(char);
-                continue;
-            }
+            // Avoid escaping references in strings, quoted sheet names and
+            // escaped characters in column names.
+            let is_copied = literal.is_quoted();
+            literal.contains(char);
 
             // Replace table reference.
-            if char == '@' {
+            if char == '@' && !is_copied {
                 escaped_formula.push_str("[#This Row],");
             } else {
                 escaped_formula.push(char);
@@ -1180,6 +1152,62 @@ impl Formula {
     }
 }
 
+// Check for the characters of function names and user defined names.
+fn is_name_char(char: char) -> bool {
+    char.is_alphanumeric() || matches!(char, '.' | '_' | '\\')
+}
+
+// Track the parts of a formula that should be copied without changes: string
+// literals, quoted sheet names, and table references in square brackets.
+#[derive(Default)]
+struct FormulaLiteral {
+    quote: Option<char>,
+    bracket_depth: u32,
+    is_escaped: bool,
+}
+
+impl FormulaLiteral {
+    // Parse the next character and check if it is part of a literal, including
+    // the delimiters.
+    fn contains(&mut self, char: char) -> bool {
+        if let Some(quote) = self.quote {
+            // Escaped quotes are doubled, so they end and restart the literal.
+            if char == quote {
+                self.quote = None;
+            }
+            return true;
+        }
+
+        if self.bracket_depth > 0 {
+            // A single quote is an escape character in a table reference.
+            if self.is_escaped {
+                self.is_escaped = false;
+            } else {
+                match char {
+                    '\'' => self.is_escaped = true,
+                    '[' => self.bracket_depth += 1,
+                    ']' => self.bracket_depth -= 1,
+                    _ => (),
+                }
+            }
+            return true;
+        }
+
+        match char {
+            '"' | '\'' => self.quote = Some(char),
+            '[' => self.bracket_depth = 1,
+            _ => return false,
+        }
+
+        true
+    }
+
+    // Check if the next character is quoted or escaped.
+    fn is_quoted(&self) -> bool {
+        self.quote.is_some() || self.is_escaped
+    }
+}
+
 impl From<&str> for Formula {
     fn from(value: &str) -> Formula {
         Formula::new(value)
-- 
2.43.0


From 63e3139dfacc92636bec5562db0d0afb9c36ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:01 +0000
Subject: [PATCH 096/106] fix: array constants at the start or end of a formula
 lost their braces

---
 src/formula.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index a44c072..8b6f8ad 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -752,15 +752,13 @@ impl Formula {
     pub fn new(formula: impl AsRef<str>) -> Formula {
         // Remove array formula braces and the leading = if they exist.
         let mut formula = formula.as_ref();
-        if let Some(stripped) = formula.strip_prefix('{') {
-            formula = stripped;
+        if has_array_braces(formula) {
+            formula = &formula[1..];
+            formula = formula.strip_suffix('}').unwrap_or(formula);
         }
         if let Some(stripped) = formula.strip_prefix('=') {
             formula = stripped;
         }
-        if let Some(stripped) = formula.strip_suffix('}') {
-            formula = stripped;
-        }
 
         // We need to escape future functions in a formula string. If the user
         // has already done this we simply copy the string. In both cases we
@@ -1152,6 +1150,34 @@ impl Formula {
     }
 }
 
+// Check if a formula is enclosed in array formula braces, as opposed to starting
+// or ending with an array constant.
+fn has_array_braces(formula: &str) -> bool {
+    let Some(formula) = formula.strip_prefix('{') else {
+        return false;
+    };
+
+    if formula.starts_with('=') {
+        return true;
+    }
+
+    // The closing brace should be at the end of the formula.
+    let mut depth = 1;
+    for (position, char) in formula.char_indices() {
+        match char {
+            '{' => depth += 1,
+            '}' => depth -= 1,
+            _ => (),
+        }
+
+        if depth == 0 {
+            return position == formula.len() - 1;
+        }
+    }
+
+    true
+}
+
 // Check for the characters of function names and user defined names.
 fn is_name_char(char: char) -> bool {
     char.is_alphanumeric() || matches!(char, '.' | '_' | '\\')
-- 
2.43.0


From eead431290f6f5b320aa8c58ad97d3355a4da0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:01 +0000
Subject: [PATCH 097/106] fix: formula results such as inf and nan were written
 as numbers

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f4a4afd..5148e14 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19305,7 +19305,7 @@ impl Worksheet {
         };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
+        let result_type = if !result.parse::<f64>().is_ok_and(f64::is_finite) {
             match result {
                 // Handle error results.
                 "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
@@ -19361,7 +19361,7 @@ impl Worksheet {
         let cm = if is_dynamic { r#" cm="1""# } else { "" };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
+        let result_type = if !result.parse::<f64>().is_ok_and(f64::is_finite) {
             match result {
                 // Handle error results.
                 "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
-- 
2.43.0


From ce6399e4abad6b39ab39f4394afb09486c096b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:20 +0000
Subject: [PATCH 098/106] fix: the strikethrough and right to left settings of
 a shape font were ignored

---
 src/drawing.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 1e8b1b5..bc0d2e6 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1108,6 +1108,10 @@ impl Drawing {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
@@ -1159,19 +1163,23 @@ impl Drawing {
         xml_start_tag(&mut self.writer, "a:fld", &attributes);
     }
 
-    // Write the <a:rPr> element for horizontal text alignment.
+    // Write the <a:pPr> element for horizontal text alignment and direction.
     fn write_text_alignment(&mut self, shape: &Shape) {
+        let mut attributes = vec![];
+
         match shape.text_options.horizontal_alignment {
             ShapeTextHorizontalAlignment::Default => {}
-            ShapeTextHorizontalAlignment::Left => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "l")]);
-            }
-            ShapeTextHorizontalAlignment::Center => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "ctr")]);
-            }
-            ShapeTextHorizontalAlignment::Right => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "r")]);
-            }
+            ShapeTextHorizontalAlignment::Left => attributes.push(("algn", "l")),
+            ShapeTextHorizontalAlignment::Center => attributes.push(("algn", "ctr")),
+            ShapeTextHorizontalAlignment::Right => attributes.push(("algn", "r")),
+        }
+
+        if let Some(right_to_left) = shape.font.right_to_left {
+            attributes.push(("rtl", if right_to_left { "1" } else { "0" }));
+        }
+
+        if !attributes.is_empty() {
+            xml_empty_tag(&mut self.writer, "a:pPr", &attributes);
         }
     }
 
-- 
2.43.0


From 413723752b0ad049b2da44528efc5a864bfb8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:47 +0000
Subject: [PATCH 099/106] fix: fractional sizes of a shape font were written
 with float noise

---
 src/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index bc0d2e6..2e2b36e 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1094,7 +1094,7 @@ impl Drawing {
         let mut attributes = vec![("lang", "en-US".to_string())];
 
         if font.size > 0.0 {
-            attributes.push(("sz", font.size.to_string()));
+            attributes.push(("sz", font.size.round().to_string()));
         }
 
         if font.bold {
-- 
2.43.0


From c97b0db610ac0f2f9ee3e2c17fb1545ecb6cd01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:43 +0000
Subject: [PATCH 100/106] fix: urls with %xx escapes other than those of the
 library were escaped again

---
 src/url.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index 8d24eec..7ace07a 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -532,22 +532,9 @@ impl Url {
             return false;
         }
 
-        url.as_bytes().windows(3).any(|w| {
-            matches!(
-                w,
-                b"%25"
-                    | b"%22"
-                    | b"%20"
-                    | b"%3c"
-                    | b"%3e"
-                    | b"%5b"
-                    | b"%5d"
-                    | b"%5e"
-                    | b"%60"
-                    | b"%7b"
-                    | b"%7d"
-            )
-        })
+        url.as_bytes()
+            .windows(3)
+            .any(|w| w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit())
     }
 }
 
-- 
2.43.0


From c2b9d9b10acde941747183bb5331921714aaf117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:17 +0000
Subject: [PATCH 101/106] fix: calls refused with an error extended the range
 of used cells

---
 src/worksheet.rs | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 5148e14..77d2a36 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -4981,8 +4981,8 @@ impl Worksheet {
         format: &Format,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -5761,7 +5761,7 @@ impl Worksheet {
         note: &Note,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check row and columns are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -5771,6 +5771,9 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store any changes in worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Set the cell that the Note refers to. This is different form the cell
         // where the note appears.
         let mut note = note.clone();
@@ -15128,7 +15131,7 @@ impl Worksheet {
         }
 
         // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15137,6 +15140,9 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store any changes in worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Rich strings are identified in the shared string table by their XML
         // tags, so a plain string with the same tags is stored as a rich string
         // with a single segment.
@@ -15202,7 +15208,7 @@ impl Worksheet {
         }
 
         // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15211,6 +15217,9 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store any changes in worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15299,8 +15308,8 @@ impl Worksheet {
         is_dynamic: bool,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -15310,6 +15319,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Store any changes in worksheet dimensions.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15462,7 +15475,7 @@ impl Worksheet {
         format: Option<&Format>,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check row and columns are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15474,6 +15487,9 @@ impl Worksheet {
             )));
         }
 
+        // Store any changes in worksheet dimensions.
+        self.check_dimensions(row, col);
+
         let image_id = match self.embedded_image_ids.get(&image.hash) {
             Some(image_id) => *image_id,
             None => {
@@ -17252,7 +17268,9 @@ impl Worksheet {
         let min_col = self.get_min_col();
 
         // Check rows are in the allowed range.
-        if !self.check_dimensions(first_row, min_col) || !self.check_dimensions(last_row, min_col) {
+        if !self.check_dimensions_only(first_row, min_col)
+            || !self.check_dimensions_only(last_row, min_col)
+        {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17275,6 +17293,10 @@ impl Worksheet {
             self.set_collapsed_row(last_row + 1)?;
         }
 
+        // Store any changes in worksheet dimensions.
+        self.check_dimensions(first_row, min_col);
+        self.check_dimensions(last_row, min_col);
+
         // Write group outline for each row.
         for row in first_row..=last_row {
             self.set_grouped_row(row, collapsed)?;
@@ -17366,7 +17388,9 @@ impl Worksheet {
         let min_row = self.get_min_row();
 
         // Check columns are in the allowed range.
-        if !self.check_dimensions(min_row, first_col) || !self.check_dimensions(min_row, last_col) {
+        if !self.check_dimensions_only(min_row, first_col)
+            || !self.check_dimensions_only(min_row, last_col)
+        {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17389,6 +17413,10 @@ impl Worksheet {
             self.set_collapsed_column(last_col + 1)?;
         }
 
+        // Store any changes in worksheet dimensions.
+        self.check_dimensions(min_row, first_col);
+        self.check_dimensions(min_row, last_col);
+
         // Write group outline for each column.
         for col in first_col..=last_col {
             self.set_grouped_column(col, collapsed)?;
-- 
2.43.0


From 51a8c1705e6ed2f712ae867ad5e423fd79395e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:08 +0000
Subject: [PATCH 102/106] fix: truncated or malformed images caused a panic

---
 src/image.rs | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 9a414cb..cf29813 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -898,18 +898,13 @@ impl Image {
     fn process_image(&mut self) -> Result<(), XlsxError> {
         let data = self.data.clone();
 
-        let png_marker = &data[1..4];
-        let jpg_marker = unpack_u16_from_be_bytes(&data, 0);
-        let bmp_marker = &data[0..2];
-        let gif_marker = &data[0..4];
-
-        if png_marker == "PNG".as_bytes() {
+        if data.get(1..4) == Some("PNG".as_bytes()) {
             self.process_png(&data);
-        } else if jpg_marker == 0xFFD8 {
+        } else if data.starts_with(&[0xFF, 0xD8]) {
             self.process_jpg(&data);
-        } else if bmp_marker == "BM".as_bytes() {
+        } else if data.starts_with("BM".as_bytes()) {
             self.process_bmp(&data);
-        } else if gif_marker == "GIF8".as_bytes() {
+        } else if data.starts_with("GIF8".as_bytes()) {
             self.process_gif(&data);
         }
 
@@ -943,7 +938,7 @@ impl Image {
         // Search through the image data to read the height and width in the
         // IHDR element. Also read the DPI in the pHYs element, if present.
         while offset < data_length {
-            let marker = &data[offset + 4..offset + 8];
+            let marker = data.get(offset + 4..offset + 8).unwrap_or_default();
             let length = unpack_u32_from_be_bytes(data, offset);
 
             // Read the image dimensions.
@@ -954,11 +949,11 @@ impl Image {
 
             // Read the image DPI values.
             if marker == "pHYs".as_bytes() {
-                let units = &data[offset + 16];
+                let units = unpack_u8(data, offset + 16);
                 let x_density = unpack_u32_from_be_bytes(data, offset + 8);
                 let y_density = unpack_u32_from_be_bytes(data, offset + 12);
 
-                if *units == 1 && x_density > 0 && y_density > 0 {
+                if units == 1 && x_density > 0 && y_density > 0 {
                     width_dpi = f64::from(x_density) * 0.0254;
                     height_dpi = f64::from(y_density) * 0.0254;
                     self.has_default_dpi = false;
@@ -1007,16 +1002,16 @@ impl Image {
 
             // Read the DPI in the 0xFFE0 element.
             if marker == 0xFFE0 {
-                let units = &data[offset + 11];
+                let units = unpack_u8(data, offset + 11);
                 let x_density = unpack_u16_from_be_bytes(data, offset + 12);
                 let y_density = unpack_u16_from_be_bytes(data, offset + 14);
 
-                if *units == 1 {
+                if units == 1 {
                     width_dpi = f64::from(x_density);
                     height_dpi = f64::from(y_density);
                 }
 
-                if *units == 2 {
+                if units == 2 {
                     width_dpi = f64::from(x_density) * 2.54;
                     height_dpi = f64::from(y_density) * 2.54;
                     self.has_default_dpi = false;
@@ -1210,19 +1205,31 @@ impl XlsxImageType {
     }
 }
 
-// Some helper functions to extract 2 and 4 byte integers from image data.
+// Some helper functions to extract 1, 2 and 4 byte integers from image data. Any
+// values beyond the end of truncated data are read as 0.
+fn unpack_u8(data: &[u8], offset: usize) -> u8 {
+    data.get(offset).copied().unwrap_or_default()
+}
+
+fn unpack_bytes<const N: usize>(data: &[u8], offset: usize) -> [u8; N] {
+    match data.get(offset..offset + N) {
+        Some(bytes) => bytes.try_into().unwrap(),
+        None => [0; N],
+    }
+}
+
 fn unpack_u16_from_be_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_be_bytes(data[offset..offset + 2].try_into().unwrap())
+    u16::from_be_bytes(unpack_bytes(data, offset))
 }
 
 fn unpack_u16_from_le_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_le_bytes(data[offset..offset + 2].try_into().unwrap())
+    u16::from_le_bytes(unpack_bytes(data, offset))
 }
 
 fn unpack_u32_from_be_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_be_bytes(data[offset..offset + 4].try_into().unwrap())
+    u32::from_be_bytes(unpack_bytes(data, offset))
 }
 
 fn unpack_u32_from_le_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
+    u32::from_le_bytes(unpack_bytes(data, offset))
 }
-- 
2.43.0


From fdd543f46a098f28c04a4dff0b679d25c4bcfa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:08 +0000
Subject: [PATCH 103/106] fix: the height of top-down bitmaps was read as a
 huge number

---
 src/image.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index cf29813..116916f 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1046,10 +1046,12 @@ impl Image {
         let height_dpi: f64 = 96.0;
 
         let width = unpack_u32_from_le_bytes(data, 18);
-        let height = unpack_u32_from_le_bytes(data, 22);
+
+        // The height is negative if the rows are stored from top to bottom.
+        let height = unpack_u32_from_le_bytes(data, 22) as i32;
 
         self.width = f64::from(width);
-        self.height = f64::from(height);
+        self.height = f64::from(height.unsigned_abs());
         self.width_dpi = width_dpi;
         self.height_dpi = height_dpi;
         self.image_type = XlsxImageType::Bmp;
-- 
2.43.0


From 8bab12da55cf8c0ebda3ff56a0af91d9ec7751cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:03 +0000
Subject: [PATCH 104/106] fix: write the tables of serialized structs in a
 fixed order

---
 src/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serializer.rs b/src/serializer.rs
index db42d67..19c4f66 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -2081,6 +2081,9 @@ impl SerializerState {
             }
         }
 
+        // Order the tables by position, the order of the hash map is arbitrary.
+        tables.sort_by_key(|table| (table.0, table.1));
+
         tables
     }
 }
-- 
2.43.0


From c027c549ede054c499e7cbb124296c2559d5b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:03 +0000
Subject: [PATCH 105/106] fix: handle serialization areas without headers or
 data

---
 src/serializer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/serializer.rs b/src/serializer.rs
index 19c4f66..9d114c5 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -2039,7 +2039,7 @@ impl SerializerState {
         Ok((
             header_config.min_row,
             header_config.min_col,
-            header_config.max_row - 1,
+            header_config.last_row(),
             header_config.max_col,
         ))
     }
@@ -2066,7 +2066,7 @@ impl SerializerState {
         Ok((
             header_config.min_row,
             field.col,
-            header_config.max_row - 1,
+            header_config.last_row(),
             field.col,
         ))
     }
@@ -2102,6 +2102,12 @@ pub(crate) struct SerializationHeaderConfig {
 }
 
 impl SerializationHeaderConfig {
+    // Get the last row of the serialization area. This is the first row if
+    // there isn't any header or data in it.
+    pub(crate) fn last_row(&self) -> RowNum {
+        self.max_row.saturating_sub(1).max(self.min_row)
+    }
+
     // Get table object and dimensions for the a serialization area.
     pub(crate) fn get_table(&mut self) -> Option<TableData> {
         let table = self.table.take();
@@ -2110,7 +2116,7 @@ impl SerializationHeaderConfig {
             Some(table) => Some(TableData(
                 self.min_row,
                 self.min_col,
-                self.max_row - 1,
+                self.last_row(),
                 self.max_col,
                 table,
             )),
-- 
2.43.0


From 51d287010714b973b138e0c5e6cf79d8cb77a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:03 +0000
Subject: [PATCH 106/106] fix: reject serialization headers which don't fit on
 the worksheet

---
 src/worksheet.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 77d2a36..f3b4f3c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12044,9 +12044,16 @@ impl Worksheet {
         col: ColNum,
         header_options: &SerializeFieldOptions,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Check row and columns are in the allowed range.
+        // Check row and columns, for all of the headers, are in the allowed range.
+        let num_cols = header_options
+            .custom_headers
+            .iter()
+            .filter(|header| !header.skip)
+            .count();
+        let last_col = usize::from(col) + num_cols.saturating_sub(1);
+        let last_col = ColNum::try_from(last_col).unwrap_or(ColNum::MAX);
 
-        if !self.check_dimensions_only(row, col) {
+        if !self.check_dimensions_only(row, last_col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
-- 
2.43.0

