From ae9c45949e73cfaf302d2920822d1dd95ca1daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:09 +0000
Subject: [PATCH 01/36] fix: conversion with embedded original can deadlock
 when all rayon workers wait

The original was compressed on a separate thread whose par_iter needs the
global rayon pool, while the conversion itself occupies a pool worker that
blocks in join(). With as many concurrent conversions as workers (or on a
single CPU) nobody is left to run the compression.
---
 rawler/src/dng/convert.rs | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/rawler/src/dng/convert.rs b/rawler/src/dng/convert.rs
index 9cb0bb3..fc78cdb 100644
--- a/rawler/src/dng/convert.rs
+++ b/rawler/src/dng/convert.rs
@@ -1,9 +1,7 @@
 use std::{
   ffi::OsStr,
-  io::{Cursor, Seek, Write},
+  io::{Seek, Write},
   path::Path,
-  sync::Arc,
-  thread::JoinHandle,
   time::SystemTime,
 };
 
@@ -83,16 +81,9 @@ pub fn convert_raw_file<W: Write + Seek + Send>(raw: &Path, dng: &mut W, params:
   //let raw_stream = BufReader::new(File::open(raw)?); // TODO: add path hint to error?
   //let rawfile = RawFile::new(PathBuf::from(raw), raw_stream);
 
-  let rawfile = Arc::new(RawSource::new(raw)?);
+  let rawfile = RawSource::new(raw)?;
 
-  let original_compress_thread = if params.embedded {
-    let orig_source = rawfile.clone();
-    Some(std::thread::spawn(move || OriginalCompressed::compress(&mut orig_source.reader())))
-  } else {
-    None
-  };
-
-  internal_convert(&rawfile, dng, original_filename, original_compress_thread, params)
+  internal_convert(&rawfile, dng, original_filename, params)
 }
 
 /// Convert a raw input file into DNG
@@ -100,21 +91,13 @@ pub fn convert_raw_source<W>(raw_source: &RawSource, dng: &mut W, original_filen
 where
   W: Write + Seek + Send,
 {
-  let original_compress_thread = if params.embedded {
-    let mut original_stream = Cursor::new(raw_source.as_vec()?);
-    Some(std::thread::spawn(move || OriginalCompressed::compress(&mut original_stream)))
-  } else {
-    None
-  };
-
-  internal_convert(raw_source, dng, original_filename, original_compress_thread, params)
+  internal_convert(raw_source, dng, original_filename, params)
 }
 
 fn internal_convert<W>(
   rawfile: &RawSource,
   dng: &mut W,
   original_filename: impl AsRef<str>,
-  original_compress_thread: Option<JoinHandle<Result<OriginalCompressed, std::io::Error>>>,
   params: &ConvertParams,
 ) -> crate::Result<ConvertInfo>
 where
@@ -229,10 +212,11 @@ where
     dng.xpacket(&xpacket)?;
   }
 
-  if let Some(handle) = original_compress_thread {
-    let original = handle
-      .join()
-      .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, format!("Failed to join compression thread: {:?}", err)))??;
+  if params.embedded {
+    // The compression fans out on rayon's global pool. It must be driven from this
+    // thread: if we are a rayon worker ourself, waiting for a foreign thread that
+    // needs the pool to make progress would deadlock once all workers are waiting.
+    let original = OriginalCompressed::compress(&mut rawfile.reader())?;
     dng.original_file(&original, original_filename)?;
   }
 
-- 
2.43.0


From 444debe55d613ba4729468e53d2fea7b46da31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:58 +0000
Subject: [PATCH 02/36] fix: failed conversion leaves a partial DNG or aborts
 the whole batch

Errors after the output was created (lock, final flush, mtime) kept the
incomplete file, and a panic on a rayon worker aborted the process with all
other conversions.
---
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 144b7b7..25d703b 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -16,6 +16,7 @@ use std::{
   fmt::Display,
   fs::{File, remove_file},
   io::BufWriter,
+  panic::{AssertUnwindSafe, catch_unwind},
   time::SystemTime,
 };
 use std::{path::PathBuf, time::Instant};
@@ -92,6 +93,19 @@ impl Raw2DngJob {
       }
       Err(e) => return Err(e.into()),
     };
+    // From here on the output file is ours: whatever goes wrong (including a
+    // panicking decoder), don't leave an incomplete DNG behind.
+    let result = catch_unwind(AssertUnwindSafe(|| self.write_dng(file, &orig_filename)))
+      .unwrap_or_else(|_| Err(AppError::General(format!("Conversion of '{}' panicked", self.input.display()))));
+    if result.is_err() {
+      if let Err(err) = remove_file(&self.output) {
+        log::error!("Failed to delete DNG file after conversion error: {:?}", err);
+      }
+    }
+    result
+  }
+
+  fn write_dng(&self, file: File, orig_filename: &str) -> Result<JobResult> {
     if let Err(err) = file.try_lock() {
       return Err(AppError::General(format!("Cannot acquire exclusive lock on {}: {err}", self.output.display())));
     }
@@ -128,10 +142,6 @@ impl Raw2DngJob {
             log::error!("Failed to decode file: {}", msg);
           }
         }
-        drop(dng);
-        if let Err(err) = remove_file(&self.output) {
-          log::error!("Failed to delete DNG file after decoder error: {:?}", err);
-        }
         Err(err.into())
       }
     }
-- 
2.43.0


From b7e95c8a5e764a2ef8e4763ed6db4ae69403cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:24 +0000
Subject: [PATCH 03/36] fix: --override with output equal to input destroys the
 input file

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs  | 5 ++++-
 bin/dnglab/dnglab-lib/src/jobs/mod.rs         | 9 +++++++++
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 5 ++++-
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs     | 5 ++++-
 bin/dnglab/dnglab-lib/src/makedng.rs          | 5 +++++
 5 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index a4bcccf..20f73ff 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, is_same_file};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use log::debug;
@@ -53,6 +53,9 @@ impl Display for JobResult {
 
 impl ExtractRawJob {
   fn internal_exec(&self) -> Result<JobResult> {
+    if self.replace && is_same_file(&self.input, &self.output) {
+      return Err(AppError::General("Input and output are the same file".into()));
+    }
     if self.output.exists() && !self.replace {
       return Err(AppError::AlreadyExists(self.output.clone()));
     }
diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index d86a8f4..4ab8d4f 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -3,6 +3,7 @@
 
 use async_trait::async_trait;
 use std::fmt::Debug;
+use std::path::Path;
 
 pub mod extractraw;
 pub mod process_raw;
@@ -15,3 +16,11 @@ pub trait Job: Clone + Debug + Send {
   /// Execute the job
   async fn execute(&self) -> Self::Output;
 }
+
+/// Check if both paths resolve to the same existing file.
+pub(crate) fn is_same_file(a: &Path, b: &Path) -> bool {
+  match (a.canonicalize(), b.canonicalize()) {
+    (Ok(a), Ok(b)) => a == b,
+    _ => false,
+  }
+}
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index fadcdef..53020b6 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2026 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, is_same_file};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -69,6 +69,9 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
 
 impl Raw2Image {
   fn internal_exec(&self) -> Result<JobResult> {
+    if self.replace && is_same_file(&self.input, &self.output) {
+      return Err(AppError::General("Input and output are the same file".into()));
+    }
     if self.output.exists() && !self.replace {
       return Err(AppError::AlreadyExists(self.output.clone()));
     }
diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 25d703b..5987a69 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, is_same_file};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -79,6 +79,9 @@ impl Raw2DngJob {
       .to_string();
 
     if self.replace && self.output.exists() {
+      if is_same_file(&self.input, &self.output) {
+        return Err(AppError::General("Input and output are the same file".into()));
+      }
       remove_file(&self.output)?;
     }
     // `create_new(true)` (= `O_EXCL`) is the single source of truth for
diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 57ba717..27da895 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -20,6 +20,7 @@ use rawler::imgop::xyz::{self, Illuminant};
 use rawler::imgop::{scale_double_to_u16, scale_u8_to_double, scale_u16_to_double};
 use rawler::rawsource::RawSource;
 use rawler::tags::{DngTag, TiffCommonTag};
+use crate::jobs::is_same_file;
 use std::fs::{File, remove_file};
 use std::io::BufWriter;
 use std::num::ParseFloatError;
@@ -71,6 +72,10 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     )));
   }
 
+  if inputs.iter().any(|input| is_same_file(input, dest_path)) {
+    return Err(crate::AppError::General("Input and output are the same file".into()));
+  }
+
   if dest_path.exists() && !options.get_flag("override") {
     return Err(crate::AppError::AlreadyExists(dest_path.to_owned()));
   }
-- 
2.43.0


From 7e2a4f180d2be9ff8e296494ea73faaae4e1cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 04/36] fix: makedng deletes an existing output on error and
 ignores final write errors

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 61 ++++++++++++++++------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 27da895..939181c 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -22,9 +22,9 @@ use rawler::rawsource::RawSource;
 use rawler::tags::{DngTag, TiffCommonTag};
 use crate::jobs::is_same_file;
 use std::fs::{File, remove_file};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::num::ParseFloatError;
-use std::path::{Path, PathBuf};
+use std::path::PathBuf;
 
 use std::str::FromStr;
 use std::time::Instant;
@@ -37,26 +37,12 @@ fn get_input_path<'a>(inputs: &'a [&PathBuf], maps: &[&InputSourceUsageMap], usa
     .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidInput, format!("No input found for '{:?}'", usage)))
 }
 
+/// Entry point for Clap sub command `makedng`
 pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
   let dest_path: &PathBuf = options
     .get_one("OUTPUT")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("Output path is required".into()))?;
 
-  match makedng_internal(options, dest_path).await {
-    Ok(_) => Ok(()),
-    Err(err) => {
-      if let Err(err) = remove_file(dest_path) {
-        log::error!("Failed to delete DNG file after decompress error: {:?}", err);
-      }
-      Err(err)
-    }
-  }
-}
-
-/// Entry point for Clap sub command `makedng`
-pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::Result<()> {
-  let _now = Instant::now();
-
   let inputs: Vec<&PathBuf> = options
     .get_many("inputs")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("inputs are required".into()))?
@@ -76,11 +62,33 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     return Err(crate::AppError::General("Input and output are the same file".into()));
   }
 
-  if dest_path.exists() && !options.get_flag("override") {
-    return Err(crate::AppError::AlreadyExists(dest_path.to_owned()));
+  let file = if options.get_flag("override") {
+    File::create(dest_path)?
+  } else {
+    match File::create_new(dest_path) {
+      Ok(file) => file,
+      Err(err) if err.kind() == std::io::ErrorKind::AlreadyExists => return Err(crate::AppError::AlreadyExists(dest_path.to_owned())),
+      Err(err) => return Err(err.into()),
+    }
+  };
+
+  // The output file is ours now, don't leave an incomplete DNG behind.
+  let result = makedng_internal(options, &inputs, &maps, file).await;
+  match &result {
+    Ok(_) => println!("File saved to: {}", dest_path.display()),
+    Err(_) => {
+      if let Err(err) = remove_file(dest_path) {
+        log::error!("Failed to delete DNG file after error: {:?}", err);
+      }
+    }
   }
+  result
+}
 
-  let mut stream = BufWriter::new(File::create(dest_path)?);
+async fn makedng_internal(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&InputSourceUsageMap], file: File) -> crate::Result<()> {
+  let _now = Instant::now();
+
+  let mut stream = BufWriter::new(file);
 
   let backward_version = options
     .get_one::<DngVersion>("dng_backward_version")
@@ -109,7 +117,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     dng.root_ifd_mut().add_tag(DngTag::ColorimetricReference, colorimetric_reference.as_dng_value());
   }
 
-  if let Ok(raw_input) = get_input_path(&inputs, &maps, InputUsage::Raw) {
+  if let Ok(raw_input) = get_input_path(inputs, maps, InputUsage::Raw) {
     let rawfile = RawSource::new(raw_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       let rawimage = decoder.raw_image(&rawfile, &RawDecodeParams::default(), false)?;
@@ -165,7 +173,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No raw input file found");
   }
 
-  if let Ok(preview_input) = get_input_path(&inputs, &maps, InputUsage::Preview) {
+  if let Ok(preview_input) = get_input_path(inputs, maps, InputUsage::Preview) {
     let rawfile = RawSource::new(preview_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       if let Some(preview) = decoder.preview_image(&rawfile, &RawDecodeParams::default())? {
@@ -183,7 +191,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No preview input file found");
   }
 
-  if let Ok(thumbnail_input) = get_input_path(&inputs, &maps, InputUsage::Thumbnail) {
+  if let Ok(thumbnail_input) = get_input_path(inputs, maps, InputUsage::Thumbnail) {
     let rawfile = RawSource::new(thumbnail_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       if let Some(preview) = decoder.preview_image(&rawfile, &RawDecodeParams::default())? {
@@ -197,7 +205,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No thumbnail input file found");
   }
 
-  if let Ok(exif_input) = get_input_path(&inputs, &maps, InputUsage::Exif) {
+  if let Ok(exif_input) = get_input_path(inputs, maps, InputUsage::Exif) {
     let rawfile = RawSource::new(exif_input)?;
     // First, prefer JFIF decoder for preview files
     if is_jfif(&rawfile) || is_exif(&rawfile) {
@@ -215,7 +223,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No EXIF input file found");
   }
 
-  if let Ok(xmp_input) = get_input_path(&inputs, &maps, InputUsage::Xmp) {
+  if let Ok(xmp_input) = get_input_path(inputs, maps, InputUsage::Xmp) {
     let rawfile = RawSource::new(xmp_input)?;
 
     if is_jfif(&rawfile) || is_exif(&rawfile) {
@@ -273,8 +281,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
   //eprintln!("XYZ: {:?}", xyz);
 
   dng.close()?;
-
-  println!("File saved to: {}", dest_path.display());
+  stream.flush()?;
 
   Ok(())
 }
-- 
2.43.0


From 6ec9ab417fd4e5d68dd193b9f70532c391f38943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:11 +0000
Subject: [PATCH 05/36] fix: process-raw and extract clobber concurrently
 created files and keep partial output

Existing files were detected by a separate exists() check, and errors of the
final flush or the mtime update left the incomplete output in place.
---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs  |  7 +++---
 bin/dnglab/dnglab-lib/src/jobs/mod.rs         | 15 ++++++++++++
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 24 ++++++++++++++-----
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index 20f73ff..1adaa1d 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{Job, is_same_file};
+use super::{Job, create_output, is_same_file};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use log::debug;
@@ -76,15 +76,14 @@ impl ExtractRawJob {
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
-        let mut stream = BufWriter::new(File::create(&self.output)?);
-        if let Err(err) = original.decompress(&mut stream, !self.skip_checks) {
+        let mut stream = BufWriter::new(create_output(&self.output, self.replace)?);
+        if let Err(err) = original.decompress(&mut stream, !self.skip_checks).and_then(|_| stream.flush()) {
           drop(original);
           if let Err(err) = remove_file(&self.output) {
             log::error!("Failed to delete original file after decompress error: {:?}", err);
           }
           return Err(err.into());
         }
-        stream.flush()?;
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0, // TODO: fixme
diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index 4ab8d4f..8f47033 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -3,8 +3,11 @@
 
 use async_trait::async_trait;
 use std::fmt::Debug;
+use std::fs::File;
 use std::path::Path;
 
+use crate::{AppError, Result};
+
 pub mod extractraw;
 pub mod process_raw;
 pub mod raw2dng;
@@ -24,3 +27,15 @@ pub(crate) fn is_same_file(a: &Path, b: &Path) -> bool {
     _ => false,
   }
 }
+
+/// Create the output file of a job. Existing files are only replaced if requested.
+pub(crate) fn create_output(output: &Path, replace: bool) -> Result<File> {
+  if replace {
+    return Ok(File::create(output)?);
+  }
+  match File::create_new(output) {
+    Ok(file) => Ok(file),
+    Err(err) if err.kind() == std::io::ErrorKind::AlreadyExists => Err(AppError::AlreadyExists(output.to_owned())),
+    Err(err) => Err(err.into()),
+  }
+}
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index 53020b6..4da6c3e 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2026 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{Job, is_same_file};
+use super::{Job, create_output, is_same_file};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -16,6 +16,7 @@ use std::{
   fmt::Display,
   fs::{File, remove_file},
   io::BufWriter,
+  panic::{AssertUnwindSafe, catch_unwind},
   time::SystemTime,
 };
 use std::{path::PathBuf, time::Instant};
@@ -84,7 +85,22 @@ impl Raw2Image {
       .to_string_lossy()
       .to_string();
 
-    let mut image_file = BufWriter::new(File::create(&self.output)?);
+    let file = create_output(&self.output, self.replace)?;
+
+    // From here on the output file is ours: whatever goes wrong (including a
+    // panicking decoder), don't leave an incomplete image behind.
+    let result = catch_unwind(AssertUnwindSafe(|| self.write_image(file, &orig_filename)))
+      .unwrap_or_else(|_| Err(AppError::General(format!("Processing of '{}' panicked", self.input.display()))));
+    if result.is_err() {
+      if let Err(err) = remove_file(&self.output) {
+        log::error!("Failed to delete output file after error: {:?}", err);
+      }
+    }
+    result
+  }
+
+  fn write_image(&self, file: File, orig_filename: &str) -> Result<JobResult> {
+    let mut image_file = BufWriter::new(file);
 
     match process_raw_image(&self.input, &mut image_file, &self.params) {
       Ok(_) => {
@@ -116,10 +132,6 @@ impl Raw2Image {
             log::error!("Failed to decode file: {}", msg);
           }
         }
-        drop(image_file);
-        if let Err(err) = remove_file(&self.output) {
-          log::error!("Failed to delete output file after decoder error: {:?}", err);
-        }
         Err(err.into())
       }
     }
-- 
2.43.0


From 9be64bba52f45dfc080a6813621327615cc37de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:50 +0000
Subject: [PATCH 06/36] fix: extract writes outside of the output directory if
 the embedded file name contains a path

---
 bin/dnglab/dnglab-lib/src/extract.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 2e98566..f8dd800 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -9,7 +9,7 @@ use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 use std::fs::File;
 use std::io::BufReader;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 use crate::filemap::{FileMap, MapMode};
@@ -141,7 +141,11 @@ fn get_original_name(file: &GenericTiffReader) -> Option<String> {
     ..
   }) = file.get_entry(DngTag::OriginalRawFileName)
   {
-    Some(orig_name.strings()[0].clone())
+    // The name comes from the DNG file and thus is untrusted, any path component
+    // would allow it to point outside of the output directory.
+    Path::new(orig_name.strings().first()?)
+      .file_name()
+      .map(|name| name.to_string_lossy().into_owned())
   } else {
     None
   }
-- 
2.43.0


From 61be9a79b755506dfaa6854a19c395be63e766b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:10 +0000
Subject: [PATCH 07/36] fix: one unusable file or dangling symlink aborts a
 whole directory run

---
 bin/dnglab/dnglab-lib/src/convert.rs     | 17 +++++++++++++++--
 bin/dnglab/dnglab-lib/src/extract.rs     | 21 ++++++++++++++++++---
 bin/dnglab/dnglab-lib/src/filemap.rs     | 10 +++++++++-
 bin/dnglab/dnglab-lib/src/process_raw.rs | 17 +++++++++++++++--
 4 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index 6ba0e22..1443e19 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -34,6 +34,7 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
 
   // List of jobs
   let mut jobs: Vec<Raw2DngJob> = Vec::new();
+  let mut results: Vec<JobResult> = Vec::new();
   // Output paths already assigned to a job in this run; used to disambiguate
   // distinct source files that would otherwise produce the same DNG name
   // (e.g. FOO.CR3 and FOO.NEF -> FOO.dng / FOO_1.dng).
@@ -54,7 +55,20 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       for entry in list {
-        jobs.append(&mut generate_job(&entry, options, &mut claimed)?);
+        match generate_job(&entry, options, &mut claimed) {
+          Ok(mut new_jobs) => jobs.append(&mut new_jobs),
+          // A single unusable file must not prevent conversion of all others.
+          Err(err) => results.push(JobResult {
+            job: Raw2DngJob {
+              input: entry.src.clone(),
+              output: entry.dest.clone(),
+              replace: options.get_flag("override"),
+              params: ConvertParams::default(),
+            },
+            duration: 0.0,
+            error: Some(err),
+          }),
+        }
       }
     }
   }
@@ -62,7 +76,6 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
   let verbose = options.get_flag("verbose");
   let concurrency = resolve_concurrency(options.get_one::<usize>("jobs").copied().unwrap_or(0));
 
-  let mut results: Vec<JobResult> = Vec::new();
   for chunks in jobs.chunks(concurrency) {
     let mut temp: Vec<JobResult> = join_all(chunks.iter().map(|j| j.execute()))
       .await
diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index f8dd800..27301b5 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -36,6 +36,7 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
   let recursive = options.get_flag("recursive");
 
   let mut jobs = Vec::new();
+  let mut results: Vec<JobResult> = Vec::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
@@ -54,14 +55,28 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
 
-      let tmp: Result<Vec<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
-      jobs.extend(tmp?.into_iter());
+      let tmp: Vec<Result<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
+      for (entry, job) in list.iter().zip(tmp) {
+        match job {
+          Ok(job) => jobs.push(job),
+          // A single unusable file must not prevent extraction of all others.
+          Err(err) => results.push(JobResult {
+            job: ExtractRawJob {
+              input: entry.src.clone(),
+              output: entry.dest.clone(),
+              replace: options.get_flag("override"),
+              skip_checks: options.get_flag("skipchecks"),
+            },
+            duration: 0.0,
+            error: Some(err),
+          }),
+        }
+      }
     }
   }
 
   let verbose = options.get_flag("verbose");
 
-  let mut results: Vec<JobResult> = Vec::new();
   for chunks in jobs.chunks(8) {
     let mut temp: Vec<JobResult> = join_all(chunks.iter().map(|j| j.execute()))
       .await
diff --git a/bin/dnglab/dnglab-lib/src/filemap.rs b/bin/dnglab/dnglab-lib/src/filemap.rs
index 92786b6..98822b5 100644
--- a/bin/dnglab/dnglab-lib/src/filemap.rs
+++ b/bin/dnglab/dnglab-lib/src/filemap.rs
@@ -116,7 +116,15 @@ where
   let dir = read_dir(input)?;
   for entry in dir {
     let entry = entry?;
-    let in_md = fs::metadata(entry.path())?;
+    let in_md = match fs::metadata(entry.path()) {
+      Ok(in_md) => in_md,
+      // Dangling symlinks or files deleted in the meantime
+      Err(err) if err.kind() == std::io::ErrorKind::NotFound => {
+        warn!("Ignoring {}: {}", entry.path().display(), err);
+        continue;
+      }
+      Err(err) => return Err(err.into()),
+    };
     if in_md.is_file() {
       if filter(&entry.path()) {
         result.push(entry.path());
diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 2d786b4..d51faf1 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -33,6 +33,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 
   // List of jobs
   let mut jobs: Vec<Raw2Image> = Vec::new();
+  let mut results: Vec<JobResult> = Vec::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
@@ -49,14 +50,26 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       for entry in list {
-        jobs.append(&mut generate_job(&entry, options)?);
+        match generate_job(&entry, options) {
+          Ok(mut new_jobs) => jobs.append(&mut new_jobs),
+          // A single unusable file must not prevent processing of all others.
+          Err(err) => results.push(JobResult {
+            job: Raw2Image {
+              input: entry.src.clone(),
+              output: entry.dest.clone(),
+              replace: options.get_flag("override"),
+              params: RawProcessingParams::default(),
+            },
+            duration: 0.0,
+            error: Some(err),
+          }),
+        }
       }
     }
   }
 
   let verbose = options.get_flag("verbose");
 
-  let mut results: Vec<JobResult> = Vec::new();
   for chunks in jobs.chunks(8) {
     let mut temp: Vec<JobResult> = join_all(chunks.iter().map(|j| j.execute()))
       .await
-- 
2.43.0


From e89a125ad24f76bbf62f6002b276c36ae2fe32a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:13 +0000
Subject: [PATCH 08/36] fix: process-raw writes sources with the same stem into
 one output file

---
 bin/dnglab/dnglab-lib/src/process_raw.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index d51faf1..3ec1769 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -5,6 +5,7 @@ use clap::ArgMatches;
 use futures::future::join_all;
 use rawler::decoders::supported_extensions;
 use rawler::imgop::develop::RawProcessingParams;
+use std::collections::HashSet;
 use std::fs::create_dir_all;
 use std::path::PathBuf;
 
@@ -34,11 +35,14 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
   // List of jobs
   let mut jobs: Vec<Raw2Image> = Vec::new();
   let mut results: Vec<JobResult> = Vec::new();
+  // Output paths already assigned to a job in this run, distinct source files
+  // must not share one output (e.g. FOO.CR3 and FOO.NEF -> FOO.tif / FOO_1.tif).
+  let mut claimed: HashSet<PathBuf> = HashSet::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
     MapMode::File(sd) => {
-      jobs.append(&mut generate_job(&sd, options)?);
+      jobs.append(&mut generate_job(&sd, options, &mut claimed)?);
     }
     // Input is directory, to process all files
     MapMode::Dir(sd) => {
@@ -50,7 +54,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       for entry in list {
-        match generate_job(&entry, options) {
+        match generate_job(&entry, options, &mut claimed) {
           Ok(mut new_jobs) => jobs.append(&mut new_jobs),
           // A single unusable file must not prevent processing of all others.
           Err(err) => results.push(JobResult {
@@ -108,7 +112,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 }
 
 /// Convert given raw file to dng file
-fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>> {
+fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<PathBuf>) -> Result<Vec<Raw2Image>> {
   let (do_batch, index) = match options.get_one::<String>("index") {
     Some(index) => {
       if index.to_lowercase().eq("all") {
@@ -157,6 +161,17 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
       output.set_file_name(format!("{}_{:04}.tif", file_name, i));
     }
 
+    let base_stem = output
+      .file_stem()
+      .ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?
+      .to_string_lossy()
+      .into_owned();
+    let mut suffix = 0usize;
+    while !claimed.insert(output.clone()) {
+      suffix += 1;
+      output.set_file_name(format!("{}_{}.tif", base_stem, suffix));
+    }
+
     match output.parent() {
       Some(parent) => {
         if !parent.exists() {
-- 
2.43.0


From 6a15bb06316c88cb367a377d83227b61947e4b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:22 +0000
Subject: [PATCH 09/36] fix: DNG output depends on hash randomness for cameras
 without illuminant A matrix

---
 rawler/src/dng/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 1bbed0f..079001f 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -156,7 +156,8 @@ where
       self.writer.as_shot_neutral(wbcoeff_to_tiff_value(&rawimage));
       // Add matrix and illumninant
       let mut available_matrices = rawimage.color_matrix.clone();
-      if let Some(first_key) = available_matrices.keys().next().cloned() {
+      // HashMap order is random, pick a stable key to get reproducible output
+      if let Some(first_key) = available_matrices.keys().min().cloned() {
         let first_matrix = available_matrices
           .remove_entry(&Illuminant::A)
           .or_else(|| available_matrices.remove_entry(&Illuminant::A))
-- 
2.43.0


From 18c8b2b277c1cf60d0156767653750bbf37f72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:25 +0000
Subject: [PATCH 10/36] fix: order of sub directories in analyze output and tag
 lookup depends on hash randomness

IFD kept its sub directories in a HashMap, so 'analyze --structure' printed them in a
different order in each process and recursive lookups could pick a different directory.
---
 rawler/src/formats/tiff/ifd.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 5b5239a..49ca791 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -16,7 +16,7 @@ use byteorder::{LittleEndian, ReadBytesExt};
 use log::debug;
 use serde::{Deserialize, Serialize};
 use std::{
-  collections::{BTreeMap, HashMap},
+  collections::BTreeMap,
   io::{Read, Seek, SeekFrom},
 };
 
@@ -42,7 +42,7 @@ pub struct IFD {
   pub next_ifd: u32,
   pub entries: BTreeMap<u16, Entry>,
   pub endian: Endian,
-  pub sub: HashMap<u16, Vec<IFD>>,
+  pub sub: BTreeMap<u16, Vec<IFD>>,
   pub chain: Vec<IFD>,
 }
 
@@ -102,7 +102,7 @@ impl IFD {
 
   pub fn new<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, endian: Endian, sub_tags: &[u16]) -> Result<IFD> {
     reader.seek(SeekFrom::Start((base + offset) as u64))?;
-    let mut sub_ifd_offsets = HashMap::new();
+    let mut sub_ifd_offsets = BTreeMap::new();
     let mut reader = EndianReader::new(reader, endian);
     let entry_count = reader.read_u16()?;
 
@@ -115,7 +115,7 @@ impl IFD {
     }
 
     let mut entries = BTreeMap::new();
-    let mut sub = HashMap::new();
+    let mut sub = BTreeMap::new();
     let mut next_pos = reader.position()?;
     debug!("Parse entries");
     let mut consecutive_errors = 0;
@@ -328,7 +328,7 @@ impl IFD {
     }
   }
 
-  pub fn sub_ifds(&self) -> &HashMap<u16, Vec<IFD>> {
+  pub fn sub_ifds(&self) -> &BTreeMap<u16, Vec<IFD>> {
     &self.sub
   }
 
-- 
2.43.0


From 3374a44acdef8891a1865fc81955742b103b444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:00 +0000
Subject: [PATCH 11/36] fix: --override in directory mode overwrites input
 files of the same run

If the output of one file is another input file of the same run (e.g. A.NEF and
A.dng converted in place, or a stored original name which equals another DNG),
the input was replaced or removed. Such outputs are reported as failed now.
---
 bin/dnglab/dnglab-lib/src/convert.rs          | 16 ++++++-
 bin/dnglab/dnglab-lib/src/extract.rs          |  5 ++-
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs  |  2 +-
 bin/dnglab/dnglab-lib/src/jobs/mod.rs         | 44 ++++++++++++++++---
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs |  2 +-
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs     |  2 +-
 bin/dnglab/dnglab-lib/src/makedng.rs          |  6 ++-
 bin/dnglab/dnglab-lib/src/process_raw.rs      | 16 ++++++-
 8 files changed, 77 insertions(+), 16 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index 1443e19..3cb6cd8 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -11,7 +11,7 @@ use std::path::PathBuf;
 use std::time::Instant;
 
 use crate::filemap::{FileMap, MapMode};
-use crate::jobs::Job;
+use crate::jobs::{InputSet, Job};
 use crate::jobs::raw2dng::{JobResult, Raw2DngJob};
 use crate::{AppError, PKG_VERSION, Result};
 use rawler::dng::convert::ConvertParams;
@@ -54,9 +54,21 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
           false
         }
       })?;
+      let inputs = InputSet::new(&list);
       for entry in list {
         match generate_job(&entry, options, &mut claimed) {
-          Ok(mut new_jobs) => jobs.append(&mut new_jobs),
+          Ok(new_jobs) => {
+            for job in new_jobs {
+              match inputs.check_output(&job.output) {
+                Err(err) if job.replace => results.push(JobResult {
+                  job,
+                  duration: 0.0,
+                  error: Some(err),
+                }),
+                _ => jobs.push(job),
+              }
+            }
+          }
           // A single unusable file must not prevent conversion of all others.
           Err(err) => results.push(JobResult {
             job: Raw2DngJob {
diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 27301b5..49ed781 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -13,7 +13,7 @@ use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 use crate::filemap::{FileMap, MapMode};
-use crate::jobs::Job;
+use crate::jobs::{InputSet, Job};
 use crate::jobs::extractraw::{ExtractRawJob, JobResult};
 use crate::{AppError, Result};
 
@@ -56,8 +56,9 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
       })?;
 
       let tmp: Vec<Result<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
+      let inputs = InputSet::new(&list);
       for (entry, job) in list.iter().zip(tmp) {
-        match job {
+        match job.and_then(|job| if job.replace { inputs.check_output(&job.output).map(|_| job) } else { Ok(job) }) {
           Ok(job) => jobs.push(job),
           // A single unusable file must not prevent extraction of all others.
           Err(err) => results.push(JobResult {
diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index 1adaa1d..e2c6b55 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -53,7 +53,7 @@ impl Display for JobResult {
 
 impl ExtractRawJob {
   fn internal_exec(&self) -> Result<JobResult> {
-    if self.replace && is_same_file(&self.input, &self.output) {
+    if self.replace && is_same_file(&self.input, &self.output)? {
       return Err(AppError::General("Input and output are the same file".into()));
     }
     if self.output.exists() && !self.replace {
diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index 8f47033..e0709c1 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -2,10 +2,12 @@
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
 use async_trait::async_trait;
+use std::collections::HashSet;
 use std::fmt::Debug;
 use std::fs::File;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
+use crate::filemap::FileMap;
 use crate::{AppError, Result};
 
 pub mod extractraw;
@@ -20,11 +22,43 @@ pub trait Job: Clone + Debug + Send {
   async fn execute(&self) -> Self::Output;
 }
 
+/// Resolve a path, `None` if it doesn't exist.
+fn resolve(path: &Path) -> std::io::Result<Option<PathBuf>> {
+  match path.canonicalize() {
+    Ok(path) => Ok(Some(path)),
+    Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(None),
+    Err(err) => Err(err),
+  }
+}
+
 /// Check if both paths resolve to the same existing file.
-pub(crate) fn is_same_file(a: &Path, b: &Path) -> bool {
-  match (a.canonicalize(), b.canonicalize()) {
-    (Ok(a), Ok(b)) => a == b,
-    _ => false,
+pub(crate) fn is_same_file(a: &Path, b: &Path) -> Result<bool> {
+  match (resolve(a)?, resolve(b)?) {
+    (Some(a), Some(b)) => Ok(a == b),
+    _ => Ok(false),
+  }
+}
+
+/// The input files of a run with many files. The output of one job must never
+/// replace the input of another one.
+pub(crate) struct InputSet(HashSet<PathBuf>);
+
+impl InputSet {
+  pub(crate) fn new(list: &[FileMap]) -> Self {
+    Self(
+      list
+        .iter()
+        .map(|entry| entry.src.canonicalize().unwrap_or_else(|_| entry.src.clone()))
+        .collect(),
+    )
+  }
+
+  /// Fails if `output` is one of the input files.
+  pub(crate) fn check_output(&self, output: &Path) -> Result<()> {
+    match resolve(output)? {
+      Some(path) if self.0.contains(&path) => Err(AppError::General(format!("Output '{}' would overwrite an input file", output.display()))),
+      _ => Ok(()),
+    }
   }
 }
 
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index 4da6c3e..caae65e 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -70,7 +70,7 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
 
 impl Raw2Image {
   fn internal_exec(&self) -> Result<JobResult> {
-    if self.replace && is_same_file(&self.input, &self.output) {
+    if self.replace && is_same_file(&self.input, &self.output)? {
       return Err(AppError::General("Input and output are the same file".into()));
     }
     if self.output.exists() && !self.replace {
diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 5987a69..89e3fec 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -79,7 +79,7 @@ impl Raw2DngJob {
       .to_string();
 
     if self.replace && self.output.exists() {
-      if is_same_file(&self.input, &self.output) {
+      if is_same_file(&self.input, &self.output)? {
         return Err(AppError::General("Input and output are the same file".into()));
       }
       remove_file(&self.output)?;
diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 939181c..fc19518 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -58,8 +58,10 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
     )));
   }
 
-  if inputs.iter().any(|input| is_same_file(input, dest_path)) {
-    return Err(crate::AppError::General("Input and output are the same file".into()));
+  for input in &inputs {
+    if is_same_file(input, dest_path)? {
+      return Err(crate::AppError::General("Input and output are the same file".into()));
+    }
   }
 
   let file = if options.get_flag("override") {
diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 3ec1769..3c691b5 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -12,7 +12,7 @@ use std::path::PathBuf;
 use std::time::Instant;
 
 use crate::filemap::{FileMap, MapMode};
-use crate::jobs::Job;
+use crate::jobs::{InputSet, Job};
 use crate::jobs::process_raw::{JobResult, Raw2Image};
 use crate::{AppError, PKG_VERSION, Result};
 
@@ -53,9 +53,21 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
           false
         }
       })?;
+      let inputs = InputSet::new(&list);
       for entry in list {
         match generate_job(&entry, options, &mut claimed) {
-          Ok(mut new_jobs) => jobs.append(&mut new_jobs),
+          Ok(new_jobs) => {
+            for job in new_jobs {
+              match inputs.check_output(&job.output) {
+                Err(err) if job.replace => results.push(JobResult {
+                  job,
+                  duration: 0.0,
+                  error: Some(err),
+                }),
+                _ => jobs.push(job),
+              }
+            }
+          }
           // A single unusable file must not prevent processing of all others.
           Err(err) => results.push(JobResult {
             job: Raw2Image {
-- 
2.43.0


From 0a42abb17e0af996f09a50ca237196d65814f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:48 +0000
Subject: [PATCH 12/36] fix: corrupt file with huge value count aborts a whole
 run

Memory for TIFF values and embedded original blocks was allocated before
checking that the data exists. A huge count in a single corrupt file let the
allocation fail and aborted the process, thus all other files of a directory
were not processed, too.
---
 rawler/src/dng/original.rs        | 7 +++++--
 rawler/src/formats/tiff/entry.rs  | 8 ++++++++
 rawler/src/formats/tiff/reader.rs | 8 ++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index 4e40ee5..f39a0f5 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -48,8 +48,11 @@ impl OriginalCompressed {
         let len = end
           .checked_sub(offset)
           .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "Offset underflow"))?;
-        let mut chunk = vec![0; len as usize];
-        stream.read_exact(&mut chunk)?;
+        // The length is untrusted, don't allocate memory for data which doesn't exist.
+        let mut chunk = Vec::new();
+        if stream.take(len).read_to_end(&mut chunk)? as u64 != len {
+          return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         chunks.push(ForkBlock::new(chunk));
         offset = end;
       }
diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 6d32e95..70f4397 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -62,6 +62,10 @@ impl<'a> RawEntry<'a> {
 // 0-1-2-3-4-5-6-7-8-9-10-11-12-13
 const DATASHIFTS: [u8; 14] = [0, 0, 0, 1, 2, 3, 0, 0, 1, 2, 3, 2, 3, 2];
 
+/// Values above this size must fit into the stream before any memory is allocated
+/// for them, the value count of corrupt files can be arbitrary large.
+const LARGE_VALUE: usize = 1024 * 1024;
+
 impl Entry {
   pub fn value_type(&self) -> u16 {
     self.value.value_type()
@@ -105,6 +109,10 @@ impl Entry {
       return Err(TiffError::Overflow(format!("Offset {} is invalid for tag 0x{:X}", offset, tag)));
     }
 
+    if bytesize > LARGE_VALUE {
+      reader.require(base + offset, bytesize as u64)?;
+    }
+
     reader.goto(base + offset)?;
     let entry = match typ {
       TYPE_BYTE => {
diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index dc6910c..527550d 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -299,6 +299,14 @@ impl<'a, R: Read + Seek + 'a> EndianReader<'a, R> {
 
     // TODO: try_from?
   }
+
+  /// Fails if the stream has less than `len` bytes at `offset`. The stream position is undefined afterwards.
+  pub(super) fn require(&mut self, offset: u32, len: u64) -> Result<()> {
+    if offset as u64 + len > self.inner.seek(SeekFrom::End(0))? {
+      return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(())
+  }
 }
 
 impl<'a, R: Read + Seek + 'a> ReadByteOrder for EndianReader<'a, R> {
-- 
2.43.0


From 94bf09ec9a8960523891992dbcead3182d812662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:03 +0000
Subject: [PATCH 13/36] fix: FTP uploads escape the server root through
 symlinks and truncate files in use

STOR joined the client's path to the server root without resolving it, so a
symlink below the root let clients create and overwrite files outside of it,
and '..' ended the session without a reply. The file was written in place: a
failed upload destroyed the old file and parallel transfers of the same name
mixed. Resolve the directory like all other commands do, and publish uploads
by renaming a complete temporary file. A relative or symlinked server root
made every path check fail; resolve it once at start.
---
 embedftp/src/client.rs | 65 +++++++++++++++++++++++++++++++++++++-----
 embedftp/src/server.rs |  3 ++
 2 files changed, 61 insertions(+), 7 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 7144235..eddfdc6 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -14,7 +14,8 @@ use std::net::{IpAddr, SocketAddr};
 use std::path::{Component, Path, PathBuf, StripPrefixError};
 use std::result;
 use std::sync::Arc;
-use tokio::fs::{File, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file};
+use std::sync::atomic::{AtomicU64, Ordering};
+use tokio::fs::{File, OpenOptions, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file, rename, symlink_metadata};
 use tokio::io::AsyncWriteExt;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
@@ -626,10 +627,15 @@ where
   async fn stor(&mut self, path: PathBuf) -> Result<()> {
     self.initiate_data_connection().await?;
     if self.data_reader.is_some() {
-      if invalid_path(&path) {
-        return Err(Error::Io(io::ErrorKind::PermissionDenied.into()));
-      }
-      let path = self.cwd.join(path);
+      let path = match self.complete_upload_path(&path).await {
+        Ok(path) => path,
+        Err(e) => {
+          warn!("Upload to {:?} refused: {}", path, e);
+          self.close_data_connection();
+          self.send(Answer::new(ResultCode::FileNameNotAllowed, "File name not allowed")).await?;
+          return Ok(());
+        }
+      };
       self
         .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
         .await?;
@@ -654,14 +660,33 @@ where
 
   /// Put file directly or delegate to a filter
   async fn put_file(&mut self, path: PathBuf, content: Arc<Vec<u8>>) -> Result<()> {
-    let path = PathBuf::from(&self.server_root).join(path.iter().skip(1).collect::<PathBuf>());
     let handled = self.env.stor_file(&path, content.clone()).await?;
     if !handled {
-      tokio::fs::write(&path, content.as_ref()).await?;
+      store(&path, content.as_ref()).await?;
     }
     Ok(())
   }
 
+  /// Complete the path for an upload. The file may not exist yet, but its
+  /// directory must, and the file must end up inside of the server root.
+  async fn complete_upload_path(&self, path: &Path) -> result::Result<PathBuf, io::Error> {
+    if invalid_path(path) {
+      return Err(io::ErrorKind::PermissionDenied.into());
+    }
+    let path = self.cwd.join(path);
+    let (Some(parent), Some(filename)) = (path.parent(), path.file_name()) else {
+      return Err(io::ErrorKind::InvalidInput.into());
+    };
+    let file = self.complete_path(parent).await?.join(filename);
+    match symlink_metadata(&file).await {
+      // Existing files may be symlinks, follow them only inside of the server root.
+      Ok(meta) if meta.file_type().is_symlink() => self.complete_path(&path).await,
+      Ok(meta) if meta.is_dir() => Err(io::ErrorKind::IsADirectory.into()),
+      Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
+      _ => Ok(file),
+    }
+  }
+
   /// Receive data from a data connection and take out the reader
   async fn receive_data(&mut self) -> Result<Vec<u8>> {
     let mut reader = self.data_reader.take().ok_or_else(|| Error::from("No data reader"))?;
@@ -706,6 +731,32 @@ where
   Ok(())
 }
 
+/// Store a file under its final name only if it is complete. The name may be
+/// in use by other transfers at the same time.
+async fn store(path: &Path, content: &[u8]) -> io::Result<()> {
+  static COUNTER: AtomicU64 = AtomicU64::new(0);
+  let (tmp, mut file) = loop {
+    let id = COUNTER.fetch_add(1, Ordering::Relaxed);
+    let tmp = path.with_file_name(format!(".embedftp-{}-{}.tmp", std::process::id(), id));
+    match OpenOptions::new().write(true).create_new(true).open(&tmp).await {
+      Ok(file) => break (tmp, file),
+      Err(e) if e.kind() == io::ErrorKind::AlreadyExists => continue,
+      Err(e) => return Err(e),
+    }
+  };
+  let result = async {
+    file.write_all(content).await?;
+    file.flush().await?;
+    drop(file);
+    rename(&tmp, path).await
+  }
+  .await;
+  if result.is_err() {
+    let _ = remove_file(&tmp).await;
+  }
+  result
+}
+
 /// Check if the path contains ".."
 fn invalid_path(path: &Path) -> bool {
   for component in path.components() {
diff --git a/embedftp/src/server.rs b/embedftp/src/server.rs
index dea0999..e3d8a42 100644
--- a/embedftp/src/server.rs
+++ b/embedftp/src/server.rs
@@ -10,6 +10,7 @@
 use log::{debug, error, info};
 use std::net::SocketAddr;
 use std::path::PathBuf;
+use tokio::fs::canonicalize;
 use tokio::io;
 use tokio::net::{TcpListener, TcpStream};
 use tokio::runtime::Handle;
@@ -24,6 +25,8 @@ where
 {
   let port = config.server_port;
   let addr = SocketAddr::new(config.server_addr, port);
+  // All path checks compare against the real location of the root.
+  let server_root = canonicalize(&server_root).await?;
   let listener = TcpListener::bind(&addr).await?;
 
   info!("Listening for clients on port {}...", port);
-- 
2.43.0


From 3f82e1f5a803bb04bc56929cfe592e8d03cbc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:54 +0000
Subject: [PATCH 14/36] fix: FTP sessions hang and leak if a passive data
 connection is never opened

PASV and EPSV waited for the data connection before the next command was
read, without any time limit. A client that never connects, or connects only
after its transfer command was read, blocked the session forever, even after
it was gone. Accept the connection when a command needs it, with a time limit.
A second PASV only got a preliminary reply (125), EPSV ALL none at all, and a
failing data connection two final ones.
---
 embedftp/src/client.rs | 170 ++++++++++++++++++++---------------------
 1 file changed, 85 insertions(+), 85 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index eddfdc6..6cd3231 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -15,11 +15,13 @@ use std::path::{Component, Path, PathBuf, StripPrefixError};
 use std::result;
 use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, Ordering};
+use std::time::Duration;
 use tokio::fs::{File, OpenOptions, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file, rename, symlink_metadata};
 use tokio::io::AsyncWriteExt;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::runtime::Handle;
+use tokio::time::timeout;
 use tokio_util::codec::{Decoder, Framed};
 
 #[cfg(unix)]
@@ -35,6 +37,9 @@ use crate::ftp::{Answer, ResultCode};
 
 const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
 
+/// Time limit for a client to open the data connection it has announced.
+const DATA_CONNECTION_TIMEOUT: Duration = Duration::from_secs(30);
+
 type Writer = SplitSink<Framed<TcpStream, FtpCodec>, Answer>;
 
 /// Client handler
@@ -45,6 +50,8 @@ where
   cwd: PathBuf,
   /// Port to use for the next active data transmission.
   active_data_port: Option<u16>,
+  /// Listener for the next passive data transmission.
+  passive_listener: Option<TcpListener>,
   data_reader: Option<OwnedReadHalf>,
   data_writer: Option<OwnedWriteHalf>,
   #[allow(dead_code)]
@@ -68,6 +75,7 @@ where
     Client {
       cwd: PathBuf::from("/"),
       active_data_port: None,
+      passive_listener: None,
       data_reader: None,
       data_writer: None,
       handle,
@@ -103,6 +111,7 @@ where
         Command::Pasv => return self.pasv().await,
         Command::Epsv(proto) => return self.epsv(proto).await,
         Command::Port(port) => {
+          self.close_data_connection();
           self.active_data_port = Some(port);
           return self.send(Answer::new(ResultCode::Ok, &format!("Data port is now {}", port))).await;
         }
@@ -227,27 +236,51 @@ where
     Ok(())
   }
 
-  async fn initiate_data_connection(&mut self) -> Result<()> {
-    // only open when we are in active mode
-    if let Some(port) = self.active_data_port {
+  /// Open the data connection the client has announced with PASV, EPSV or PORT.
+  /// If this is not possible, the client gets an error reply and `false` is returned.
+  async fn initiate_data_connection(&mut self) -> Result<bool> {
+    let stream = if let Some(listener) = self.passive_listener.take() {
+      timeout(DATA_CONNECTION_TIMEOUT, listener.accept()).await.map(|res| res.map(|(stream, _addr)| stream))
+    } else if let Some(port) = self.active_data_port {
       let mut addr = self.remote_addr;
       addr.set_port(port);
-      let stream = match TcpStream::connect(addr).await {
-        Ok(stream) => stream,
-        Err(e) => {
-          error!("Connection failed to {}, {}", addr, e);
-          self.send(Answer::new(ResultCode::CantOpenDataConnection, "Unable to connect")).await?;
-          return Ok(());
-        }
-      };
-      let (r, w) = stream.into_split();
-      self.data_writer = Some(w);
-      self.data_reader = Some(r);
+      timeout(DATA_CONNECTION_TIMEOUT, TcpStream::connect(addr)).await
+    } else {
+      warn!("No opened data connection");
+      self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
+      return Ok(false);
+    };
+    match stream.unwrap_or_else(|elapsed| Err(elapsed.into())) {
+      Ok(stream) => {
+        let (r, w) = stream.into_split();
+        self.data_writer = Some(w);
+        self.data_reader = Some(r);
+        Ok(true)
+      }
+      Err(e) => {
+        error!("Data connection failed: {}", e);
+        self.send(Answer::new(ResultCode::CantOpenDataConnection, "Unable to connect")).await?;
+        Ok(false)
+      }
     }
-    Ok(())
+  }
+
+  /// Listen for a passive data connection. The connection itself is
+  /// accepted by the command that needs it.
+  async fn listen_passive(&mut self) -> io::Result<u16> {
+    self.close_data_connection();
+    self.active_data_port = None;
+    let mut addr = self.local_addr;
+    addr.set_port(0); // auto configure port
+    let listener = TcpListener::bind(&addr).await?;
+    let port = listener.local_addr()?.port();
+    debug!("Waiting for data clients on port {}...", port);
+    self.passive_listener = Some(listener);
+    Ok(port)
   }
 
   fn close_data_connection(&mut self) {
+    self.passive_listener = None;
     self.data_reader = None;
     self.data_writer = None;
   }
@@ -353,7 +386,9 @@ where
   }
 
   async fn list(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let path = self.cwd.join(path.unwrap_or_default());
       let directory = PathBuf::from(&path);
@@ -400,7 +435,9 @@ where
   }
 
   async fn nlst(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let cwd = self.cwd.clone();
       let res = self.complete_path(&cwd).await;
@@ -469,25 +506,13 @@ where
   }
 
   async fn pasv(&mut self) -> Result<()> {
-    if self.data_writer.is_some() {
-      self.send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Already listening...")).await?;
-      return Ok(());
-    }
-    self.active_data_port = None;
-    let port = 0; // auto configure port
-    let mut addr = self.local_addr;
-    addr.set_port(port);
-
     // If it's a IPv4 address but mapped into v6 as defined in IETF RFC 4291 section 2.5.5.2,
     // use the canonical value.
-    match &addr.ip().to_canonical() {
-      IpAddr::V4(v4addr) => {
-        let listener = TcpListener::bind(&addr).await?;
-        let port = listener.local_addr()?.port();
-        let octets = v4addr.octets();
-
-        self
-          .send(Answer::new(
+    let answer = match self.local_addr.ip().to_canonical() {
+      IpAddr::V4(v4addr) => match self.listen_passive().await {
+        Ok(port) => {
+          let octets = v4addr.octets();
+          Answer::new(
             ResultCode::EnteringPassiveMode,
             &format!(
               "Entering passive mode ({},{},{},{},{},{}).",
@@ -498,66 +523,37 @@ where
               port >> 8,
               port & 0xFF
             ),
-          ))
-          .await?;
-
-        debug!("Waiting for data clients on port {}...", port);
-        {
-          let (stream, _addr) = listener.accept().await?;
-          let (r, w) = stream.into_split();
-          self.data_writer = Some(w);
-          self.data_reader = Some(r);
+          )
         }
-      }
-      IpAddr::V6(_v6addr) => {
-        return Err(Error::Msg("PASV is not possible for IPv6 connections.".into()));
-      }
-    }
-    Ok(())
+        Err(e) => {
+          error!("Failed to listen for data connections: {}", e);
+          Answer::new(ResultCode::CantOpenDataConnection, "Can't open data connection")
+        }
+      },
+      IpAddr::V6(_v6addr) => Answer::new(ResultCode::CantOpenDataConnection, "PASV is not possible for IPv6 connections."),
+    };
+    self.send(answer).await
   }
 
   async fn epsv(&mut self, proto: Option<String>) -> Result<()> {
-    let port = 0;
-
     if let Some(proto) = proto {
       if proto.to_uppercase().eq("ALL") {
-        self.data_writer = None;
-        return Ok(());
+        self.close_data_connection();
+        return self.send(Answer::new(ResultCode::Ok, "EPSV ALL accepted")).await;
       }
     }
-
-    if self.data_writer.is_some() {
-      self.send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Already listening...")).await?;
-      return Ok(());
-    }
-
-    self.active_data_port = None;
-
-    let mut addr = self.local_addr;
-    addr.set_port(port);
-    let listener = TcpListener::bind(&addr).await?;
-    let port = listener.local_addr()?.port();
-
-    self
-      .send(Answer::new(ResultCode::ExtendedEnteringPassiveMode, &format!(" (|||{}|)", port,)))
-      .await?;
-
-    debug!("Waiting for data clients on port {}...", port);
-    {
-      let (stream, _addr) = listener.accept().await?;
-      let (r, w) = stream.into_split();
-
-      self.data_writer = Some(w);
-      self.data_reader = Some(r);
-    }
-
-    Ok(())
+    let answer = match self.listen_passive().await {
+      Ok(port) => Answer::new(ResultCode::ExtendedEnteringPassiveMode, &format!(" (|||{}|)", port,)),
+      Err(e) => {
+        error!("Failed to listen for data connections: {}", e);
+        Answer::new(ResultCode::CantOpenDataConnection, "Can't open data connection")
+      }
+    };
+    self.send(answer).await
   }
 
   async fn quit(&mut self) -> Result<()> {
-    if self.data_writer.is_some() {
-      self.close_data_connection();
-    }
+    self.close_data_connection();
     self
       .send(Answer::new(ResultCode::ServiceClosingControlConnection, "Closing connection..."))
       .await?;
@@ -566,7 +562,9 @@ where
   }
 
   async fn retr(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     // TODO: check if multiple data connection can be opened at the same time.
     if self.data_writer.is_some() {
       let path = self.cwd.join(path);
@@ -625,7 +623,9 @@ where
   }
 
   async fn stor(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_reader.is_some() {
       let path = match self.complete_upload_path(&path).await {
         Ok(path) => path,
-- 
2.43.0


From 1628d11ad067603667ac626d34909f9dc54cf3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:27 +0000
Subject: [PATCH 15/36] fix: FTP transfer commands send no, wrong or two final
 replies on errors

A failed LIST, NLST or RETR was answered by an error followed by 226, or left
the data connection open. A data connection reset during a transfer ended
the whole session without any reply.
---
 embedftp/src/client.rs | 316 ++++++++++++++++++-----------------------
 1 file changed, 136 insertions(+), 180 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 6cd3231..4e93d07 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -240,7 +240,9 @@ where
   /// If this is not possible, the client gets an error reply and `false` is returned.
   async fn initiate_data_connection(&mut self) -> Result<bool> {
     let stream = if let Some(listener) = self.passive_listener.take() {
-      timeout(DATA_CONNECTION_TIMEOUT, listener.accept()).await.map(|res| res.map(|(stream, _addr)| stream))
+      timeout(DATA_CONNECTION_TIMEOUT, listener.accept())
+        .await
+        .map(|res| res.map(|(stream, _addr)| stream))
     } else if let Some(port) = self.active_data_port {
       let mut addr = self.remote_addr;
       addr.set_port(port);
@@ -389,120 +391,75 @@ where
     if !self.initiate_data_connection().await? {
       return Ok(());
     }
-    if self.data_writer.is_some() {
-      let path = self.cwd.join(path.unwrap_or_default());
-      let directory = PathBuf::from(&path);
-      let res = self.complete_path(&directory).await;
-      if let Ok(path) = res {
-        self
-          .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to list directory..."))
-          .await?;
-        let mut out = vec![];
-        let is_dir = metadata(&path).await.map(|m| m.is_dir()).unwrap_or(false);
-        if is_dir {
-          match read_dir(&path).await {
-            Ok(mut dir) => {
-              while let Ok(Some(entry)) = dir.next_entry().await {
-                add_file_info(entry.path(), &mut out).await;
-              }
-            }
-            Err(_) => {
-              self
-                .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
-                .await?;
-              return Ok(());
-            }
-          }
-        } else {
-          add_file_info(path, &mut out).await;
-        }
-        self.send_data(out).await?;
-      } else {
-        warn!("No such file or directory");
-        self
-          .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
-          .await?;
-      }
-    } else {
-      warn!("No opened data connection");
-      self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
-    }
-    if self.data_writer.is_some() {
-      self.close_data_connection();
-      self.send(Answer::new(ResultCode::ClosingDataConnection, "Transfer done")).await?;
+    let path = self.cwd.join(path.unwrap_or_default());
+    let mut out = vec![];
+    let listed = match self.complete_path(&path).await {
+      Ok(path) => list_path(path, &mut out).await,
+      Err(e) => Err(e),
+    };
+    if let Err(e) = listed {
+      warn!("Failed to list {:?}: {}", path, e);
+      return self.refuse_transfer(ResultCode::InvalidParameterOrArgument, "No such file or directory").await;
     }
-    Ok(())
+    self
+      .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to list directory..."))
+      .await?;
+    let result = self.send_data(out).await;
+    self.finish_transfer(result).await
   }
 
   async fn nlst(&mut self, path: Option<PathBuf>) -> Result<()> {
     if !self.initiate_data_connection().await? {
       return Ok(());
     }
-    if self.data_writer.is_some() {
-      let cwd = self.cwd.clone();
-      let res = self.complete_path(&cwd).await;
-      if let Ok(cwd) = res {
-        let mut out = vec![];
-
-        let pattern = if let Some(p) = path {
-          if p.is_absolute() {
-            self
-              .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
-              .await?;
-            self.close_data_connection();
-            return Ok(());
-          }
-          cwd.join(p)
-        } else {
-          cwd.join("*")
-        };
-
-        let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
-          Some(Ok(matches)) => matches,
-          _ => {
-            self
-              .send(Answer::new(ResultCode::InvalidParameterOrArgument, "Invalid pattern specified"))
-              .await?;
-            return Ok(());
-          }
-        };
+    let cwd = self.cwd.clone();
+    let Ok(cwd) = self.complete_path(&cwd).await else {
+      return self.refuse_transfer(ResultCode::FileNotFound, "No such file or directory").await;
+    };
+    let mut out = vec![];
 
-        self
-          .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to list directory..."))
-          .await?;
+    let pattern = if let Some(p) = path {
+      if p.is_absolute() {
+        return self.refuse_transfer(ResultCode::InvalidParameterOrArgument, "No such file or directory").await;
+      }
+      cwd.join(p)
+    } else {
+      cwd.join("*")
+    };
 
-        for entry in matches {
-          match entry {
-            Ok(path) => match canonicalize(&path).await {
-              Ok(p) => {
-                if p.starts_with(&self.server_root) {
-                  add_file_info_nlst(path, &mut out).await;
-                } else {
-                  warn!("Entry is out of server root: {:?}, skipping", path);
-                }
-              }
-              Err(e) => {
-                error!("Error while processing NLST command: {:?}", e);
-              }
-            },
-            Err(e) => {
-              error!("Error while processing NLST command: {:?}", e);
+    let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
+      Some(Ok(matches)) => matches,
+      _ => {
+        return self.refuse_transfer(ResultCode::InvalidParameterOrArgument, "Invalid pattern specified").await;
+      }
+    };
+
+    self
+      .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to list directory..."))
+      .await?;
+
+    for entry in matches {
+      match entry {
+        Ok(path) => match canonicalize(&path).await {
+          Ok(p) => {
+            if p.starts_with(&self.server_root) {
+              add_file_info_nlst(path, &mut out).await;
+            } else {
+              warn!("Entry is out of server root: {:?}, skipping", path);
             }
           }
+          Err(e) => {
+            error!("Error while processing NLST command: {:?}", e);
+          }
+        },
+        Err(e) => {
+          error!("Error while processing NLST command: {:?}", e);
         }
-
-        self.send_data(out).await?;
-      } else {
-        self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
       }
-    } else {
-      self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
-    }
-    if self.data_writer.is_some() {
-      self.close_data_connection();
-      self.send(Answer::new(ResultCode::ClosingDataConnection, "Transfer done")).await?;
     }
-    Ok(())
+
+    let result = self.send_data(out).await;
+    self.finish_transfer(result).await
   }
 
   async fn pasv(&mut self) -> Result<()> {
@@ -566,94 +523,62 @@ where
       return Ok(());
     }
     // TODO: check if multiple data connection can be opened at the same time.
-    if self.data_writer.is_some() {
-      let path = self.cwd.join(path);
-      let res = self.complete_path(&path).await;
-      if let Ok(path) = res {
-        let is_file = metadata(&path).await.map(|m| m.is_file()).unwrap_or(false);
-        if is_file {
-          self
-            .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
-            .await?;
-          let mut file = match File::open(&path).await {
-            Ok(file) => file,
-            Err(e) => {
-              error!("Failed to open file {:?}, {}", path, e);
-              self
-                .send(Answer::new(
-                  ResultCode::LocalErrorInProcessing,
-                  &format!("\"{}\" doesn't exist", path.to_str().ok_or_else(|| Error::Msg("No path".to_string()))?),
-                ))
-                .await?;
-              return Ok(());
-            }
-          };
-          if let Some(writer) = &mut self.data_writer {
-            tokio::io::copy(&mut file, writer).await?;
-          } else {
-            return Err(Error::from("Trying to send data but no data connection is open."));
-          }
-        } else {
-          warn!("No path, not exist");
-          self
-            .send(Answer::new(
-              ResultCode::LocalErrorInProcessing,
-              &format!("\"{}\" doesn't exist", path.to_str().ok_or_else(|| Error::Msg("No path".to_string()))?),
-            ))
-            .await?;
-        }
-      } else {
-        warn!("No path");
-        self
-          .send(Answer::new(
-            ResultCode::LocalErrorInProcessing,
-            &format!("\"{}\" doesn't exist", path.to_str().ok_or_else(|| Error::Msg("No path".to_string()))?),
-          ))
-          .await?;
+    let path = self.cwd.join(path);
+    let mut file = match self.open_file(&path).await {
+      Ok(file) => file,
+      Err(e) => {
+        error!("Failed to open file {:?}, {}", path, e);
+        let msg = format!("\"{}\" doesn't exist", path.display());
+        return self.refuse_transfer(ResultCode::LocalErrorInProcessing, &msg).await;
       }
-    } else {
-      warn!("No open data connection");
-      self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
-    }
-    if self.data_writer.is_some() {
-      self.close_data_connection();
-      self.send(Answer::new(ResultCode::ClosingDataConnection, "Transfer done")).await?;
+    };
+    self
+      .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
+      .await?;
+    let result = match &mut self.data_writer {
+      Some(writer) => tokio::io::copy(&mut file, writer).await.map(|_| ()).map_err(Error::from),
+      None => Err(Error::from("Trying to send data but no data connection is open.")),
+    };
+    self.finish_transfer(result).await
+  }
+
+  /// Open a regular file for reading
+  async fn open_file(&self, path: &Path) -> io::Result<File> {
+    let path = self.complete_path(path).await?;
+    if !metadata(&path).await?.is_file() {
+      return Err(io::ErrorKind::InvalidInput.into());
     }
-    Ok(())
+    File::open(&path).await
   }
 
   async fn stor(&mut self, path: PathBuf) -> Result<()> {
     if !self.initiate_data_connection().await? {
       return Ok(());
     }
-    if self.data_reader.is_some() {
-      let path = match self.complete_upload_path(&path).await {
-        Ok(path) => path,
-        Err(e) => {
-          warn!("Upload to {:?} refused: {}", path, e);
-          self.close_data_connection();
-          self.send(Answer::new(ResultCode::FileNameNotAllowed, "File name not allowed")).await?;
-          return Ok(());
-        }
-      };
-      self
-        .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
-        .await?;
-      let data = self.receive_data().await?;
-      info!("Received file: {:?}, {} bytes", path, data.len());
-      self.close_data_connection();
-      match self.put_file(path, Arc::new(data)).await {
-        Ok(_) => {
-          self.send(Answer::new(ResultCode::ClosingDataConnection, "Transfer done")).await?;
-        }
-        Err(e) => {
-          error!("Failed STOR command: {:?}", e);
-          self.send(Answer::new(ResultCode::LocalErrorInProcessing, "Failed to store the file")).await?;
-        }
+    let path = match self.complete_upload_path(&path).await {
+      Ok(path) => path,
+      Err(e) => {
+        warn!("Upload to {:?} refused: {}", path, e);
+        return self.refuse_transfer(ResultCode::FileNameNotAllowed, "File name not allowed").await;
+      }
+    };
+    self
+      .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
+      .await?;
+    let data = match self.receive_data().await {
+      Ok(data) => data,
+      Err(e) => return self.finish_transfer(Err(e)).await,
+    };
+    info!("Received file: {:?}, {} bytes", path, data.len());
+    self.close_data_connection();
+    match self.put_file(path, Arc::new(data)).await {
+      Ok(_) => {
+        self.send(Answer::new(ResultCode::ClosingDataConnection, "Transfer done")).await?;
+      }
+      Err(e) => {
+        error!("Failed STOR command: {:?}", e);
+        self.send(Answer::new(ResultCode::LocalErrorInProcessing, "Failed to store the file")).await?;
       }
-    } else {
-      warn!("No opened data connection");
-      self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
     }
     Ok(())
   }
@@ -695,6 +620,24 @@ where
     Ok(buf)
   }
 
+  /// Answer a transfer command with an error instead of starting the transfer
+  async fn refuse_transfer(&mut self, code: ResultCode, msg: &str) -> Result<()> {
+    self.close_data_connection();
+    self.send(Answer::new(code, msg)).await
+  }
+
+  /// Close the data connection and report the result of the transfer
+  async fn finish_transfer(&mut self, result: Result<()>) -> Result<()> {
+    self.close_data_connection();
+    match result {
+      Ok(()) => self.send(Answer::new(ResultCode::ClosingDataConnection, "Transfer done")).await,
+      Err(e) => {
+        warn!("Data transfer failed: {}", e);
+        self.send(Answer::new(ResultCode::ConnectionClosed, "Transfer aborted")).await
+      }
+    }
+  }
+
   /// Send a control answer to the client
   async fn send(&mut self, answer: Answer) -> Result<()> {
     self.writer.send(answer).await?;
@@ -781,6 +724,19 @@ fn prefix_slash(path: &mut PathBuf) {
   }
 }
 
+/// Collect the listing of a directory or a single file
+async fn list_path(path: PathBuf, out: &mut Vec<u8>) -> io::Result<()> {
+  if metadata(&path).await?.is_dir() {
+    let mut dir = read_dir(&path).await?;
+    while let Some(entry) = dir.next_entry().await? {
+      add_file_info(entry.path(), out).await;
+    }
+  } else {
+    add_file_info(path, out).await;
+  }
+  Ok(())
+}
+
 // If an error occurs when we try to get file's information, we just return and don't send its info.
 async fn add_file_info(path: PathBuf, out: &mut Vec<u8>) {
   let meta = match metadata(&path).await {
-- 
2.43.0


From 7b123c04b8f4f3b707bffffba4850244630a8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:33 +0000
Subject: [PATCH 16/36] fix: malformed FTP commands end the session without a
 reply

Arguments a command cannot parse are answered with 501 now, a reply
always stays on one line, a command line has an upper bound and the
session ends after QUIT.
---
 embedftp/src/client.rs  |  8 ++++++++
 embedftp/src/codec.rs   | 13 ++++++++++---
 embedftp/src/command.rs |  3 +++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 4e93d07..b2a1a30 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -227,6 +227,10 @@ where
           .send(Answer::new(ResultCode::UnknownCommand, &format!("\"{}\": Not implemented", s)))
           .await?
       }
+      Command::Invalid(s) => {
+        warn!("Invalid command: {}", s);
+        self.send(Answer::new(ResultCode::InvalidParameterOrArgument, &s)).await?
+      }
       _ => {
         warn!("Please login first");
         // It means that the user tried to send a command while they weren't logged yet.
@@ -667,7 +671,11 @@ where
 
   let mut client = Client::new(handle, writer, server_root, config, env, local_addr, remote_addr);
   while let Some(cmd) = reader.try_next().await? {
+    let quit = cmd == Command::Quit;
     client.handle_cmd(cmd).await?;
+    if quit {
+      break;
+    }
   }
 
   debug!("Client {} closed connection", remote_addr);
diff --git a/embedftp/src/codec.rs b/embedftp/src/codec.rs
index d173308..ea1fc7c 100644
--- a/embedftp/src/codec.rs
+++ b/embedftp/src/codec.rs
@@ -3,12 +3,14 @@
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
 use crate::command::Command;
-use crate::error::Error;
 use crate::ftp::Answer;
 use bytes::BytesMut;
 use std::io::{self, Write};
 use tokio_util::codec::{Decoder, Encoder};
 
+/// Upper bound for a command line, anything longer is no FTP client.
+const MAX_LINE_LENGTH: usize = 16 * 1024;
+
 /// Codec for FTP commands
 pub struct FtpCodec;
 
@@ -20,7 +22,10 @@ impl Decoder for FtpCodec {
     if let Some(index) = find_crlf(buf) {
       let line = buf.split_to(index);
       let _ = buf.split_to(2); // Remove \r\n.
-      Command::new(line.to_vec()).map(Some).map_err(Error::to_io_error)
+      // A malformed command must be answered like any other command.
+      Ok(Some(Command::new(line.to_vec()).unwrap_or_else(|e| Command::Invalid(e.to_string()))))
+    } else if buf.len() > MAX_LINE_LENGTH {
+      Err(io::Error::new(io::ErrorKind::InvalidData, "Command line too long"))
     } else {
       Ok(None)
     }
@@ -30,8 +35,10 @@ impl Decoder for FtpCodec {
 impl Encoder<Answer> for FtpCodec {
   type Error = io::Error;
 
-  fn encode(&mut self, answer: Answer, buf: &mut BytesMut) -> io::Result<()> {
+  fn encode(&mut self, mut answer: Answer, buf: &mut BytesMut) -> io::Result<()> {
     let mut buffer = vec![];
+    // Messages may quote file names, but a reply must stay on its line.
+    answer.message = answer.message.replace(['\r', '\n'], " ");
     if !answer.lines.is_empty() {
       write!(buffer, "{}- {}\r\n", answer.code as u32, answer.message)?;
       for line in answer.lines {
diff --git a/embedftp/src/command.rs b/embedftp/src/command.rs
index 7d8c8f0..bd43cfe 100644
--- a/embedftp/src/command.rs
+++ b/embedftp/src/command.rs
@@ -30,6 +30,8 @@ pub enum Command {
   Type(TransferType),
   CdUp,
   Unknown(String),
+  /// Known command with invalid parameter
+  Invalid(String),
   User(String),
 }
 
@@ -58,6 +60,7 @@ impl AsRef<str> for Command {
       Command::Dele(_) => "DELE",
       Command::NoOp => "NOOP",
       Command::Unknown(_) => "UNKN", // doesn't exist
+      Command::Invalid(_) => "INVL", // doesn't exist
     }
   }
 }
-- 
2.43.0


From 87fe3e8cc0dc6f42a9d495cdbaa1a86ed5b17c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:34 +0000
Subject: [PATCH 17/36] fix: FTP server ends when accepting one connection
 fails

---
 embedftp/src/server.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/server.rs b/embedftp/src/server.rs
index e3d8a42..e2d1790 100644
--- a/embedftp/src/server.rs
+++ b/embedftp/src/server.rs
@@ -10,6 +10,7 @@
 use log::{debug, error, info};
 use std::net::SocketAddr;
 use std::path::PathBuf;
+use std::time::Duration;
 use tokio::fs::canonicalize;
 use tokio::io;
 use tokio::net::{TcpListener, TcpStream};
@@ -31,7 +32,15 @@ where
 
   info!("Listening for clients on port {}...", port);
   loop {
-    let (stream, addr) = listener.accept().await?;
+    let (stream, addr) = match listener.accept().await {
+      Ok(connection) => connection,
+      Err(err) => {
+        // Aborted connection or no resources left, both must not end the server.
+        error!("Failed to accept client: {}", err);
+        tokio::time::sleep(Duration::from_millis(100)).await;
+        continue;
+      }
+    };
     info!("New client connected: {}", addr);
     handle.spawn(handle_client(addr, stream, handle.clone(), server_root.clone(), config.clone(), env.clone()));
   }
-- 
2.43.0


From 542a127db7bf4236aa99c80e49f81a6589b3632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:34 +0000
Subject: [PATCH 18/36] fix: FTP anonymous mode lets any user name log in
 without its password

---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index b2a1a30..ad1c074 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -144,7 +144,7 @@ where
     } else if self.name.is_some() && self.waiting_password {
       if let Command::Pass(content) = cmd {
         let mut ok = false;
-        if self.config.anonymous {
+        if self.config.anonymous && self.name.as_deref() == Some("anonymous") {
           ok = true;
         } else {
           for user in &self.config.users {
-- 
2.43.0


From 35a0d6db2048009f04fe2bf5581460910cad0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 19/36] fix: FTP server removes its own root, enters files and
 misreads names as patterns

---
 embedftp/src/client.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index ad1c074..72f6aaa 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -118,7 +118,7 @@ where
         Command::Pwd => {
           let msg = self.cwd.to_str().unwrap_or("").to_string(); // small trick
           if !msg.is_empty() {
-            let message = format!("\"{}\" ", msg);
+            let message = format!("\"{}\" ", msg.replace('"', "\"\""));
             return self.send(Answer::new(ResultCode::PATHNAMECreated, &message)).await;
           } else {
             return self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await;
@@ -336,7 +336,7 @@ where
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
     if let Ok(dir) = res {
-      if remove_dir_all(dir).await.is_ok() {
+      if dir != self.server_root && remove_dir_all(dir).await.is_ok() {
         self
           .send(Answer::new(ResultCode::RequestedFileActionOkay, "Folder successfully removed"))
           .await?;
@@ -373,8 +373,9 @@ where
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
     if let Ok(dir) = res {
+      let is_dir = metadata(&dir).await.map(|m| m.is_dir()).unwrap_or(false);
       let res = self.strip_prefix(dir);
-      if let Ok(prefix) = res {
+      if let (Ok(prefix), true) = (res, is_dir) {
         self.cwd = prefix.to_path_buf();
         prefix_slash(&mut self.cwd);
         self
@@ -422,13 +423,17 @@ where
     };
     let mut out = vec![];
 
+    // Only the part given by the client is a pattern.
+    let Some(dir) = cwd.to_str().map(glob::Pattern::escape) else {
+      return self.refuse_transfer(ResultCode::FileNotFound, "No such file or directory").await;
+    };
     let pattern = if let Some(p) = path {
       if p.is_absolute() {
         return self.refuse_transfer(ResultCode::InvalidParameterOrArgument, "No such file or directory").await;
       }
-      cwd.join(p)
+      Path::new(&dir).join(p)
     } else {
-      cwd.join("*")
+      Path::new(&dir).join("*")
     };
 
     let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
-- 
2.43.0


From 767f981d7c25e816b169f56922f50165b1a72c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 20/36] fix: FTP conversion leaves truncated DNGs behind

The DNG was written under its final name: a failing conversion, a full
disk or a second upload of the same name left an incomplete or mixed
file, and write errors at the end were not reported at all.
---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 55 +++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index 57e8864..a4ad14a 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -7,10 +7,11 @@ use embedftp::server::serve;
 use rawler::decoders::supported_extensions;
 use rawler::rawsource::RawSource;
 use std::ffi::OsStr;
-use std::fs::File;
+use std::fs::{File, OpenOptions};
 use std::io::BufWriter;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
+use std::sync::atomic::{AtomicU64, Ordering};
 
 use tokio::runtime::Handle;
 
@@ -38,21 +39,18 @@ impl FtpCallback for FtpState {
       let original_filename = path.file_name().and_then(OsStr::to_str).unwrap_or_default();
       let rawfile = RawSource::new_from_shared_vec(data).with_path(original_filename);
       let out_path = path.with_extension("dng");
-      let mut dng = BufWriter::new(File::create(out_path)?);
+      let (temp, file) = TempFile::create(&out_path)?;
+      let mut dng = BufWriter::new(file);
       let _info =
         convert_raw_source(&rawfile, &mut dng, original_filename, &state.params).map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
+      let file = dng.into_inner().map_err(|e| e.into_error())?;
       if state.params.keep_mtime {
-        if let Err(err) = copy_mtime_from_rawsource(
-          &rawfile,
-          &dng
-            .into_inner()
-            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("Can't access inner file: {e}")))?,
-          None,
-          &state.params,
-        ) {
+        if let Err(err) = copy_mtime_from_rawsource(&rawfile, &file, None, &state.params) {
           log::warn!("Failed to set mtime, continue anyway: {}", err);
         }
       }
+      drop(file);
+      temp.rename(&out_path)?;
       Ok(!state.keep_orig)
     })
     .await
@@ -60,6 +58,43 @@ impl FtpCallback for FtpState {
   }
 }
 
+/// File under construction next to its final name, deleted unless renamed.
+struct TempFile {
+  path: PathBuf,
+  renamed: bool,
+}
+
+impl TempFile {
+  fn create(target: &Path) -> std::io::Result<(Self, File)> {
+    static COUNTER: AtomicU64 = AtomicU64::new(0);
+    loop {
+      let id = COUNTER.fetch_add(1, Ordering::Relaxed);
+      let path = target.with_file_name(format!(".{}-{}-{}.tmp", PKG_NAME, std::process::id(), id));
+      match OpenOptions::new().write(true).create_new(true).open(&path) {
+        Ok(file) => return Ok((Self { path, renamed: false }, file)),
+        Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => continue,
+        Err(e) => return Err(e),
+      }
+    }
+  }
+
+  fn rename(mut self, target: &Path) -> std::io::Result<()> {
+    std::fs::rename(&self.path, target)?;
+    self.renamed = true;
+    Ok(())
+  }
+}
+
+impl Drop for TempFile {
+  fn drop(&mut self) {
+    if !self.renamed {
+      if let Err(err) = std::fs::remove_file(&self.path) {
+        log::error!("Failed to delete temporary file {}: {}", self.path.display(), err);
+      }
+    }
+  }
+}
+
 /// Entry point for Clap sub command `ftpconvert`
 pub async fn ftpserver(options: &ArgMatches) -> crate::Result<()> {
   let mut config = Config::new("foo").ok_or_else(|| anyhow::anyhow!("failed to create FTP config"))?;
-- 
2.43.0


From 893b5800fef4edeeb96c04d286ec534e87e889c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:29 +0000
Subject: [PATCH 21/36] fix: keep the bits of signed and float values stored
 inside a TIFF entry

---
 rawler/src/formats/tiff/value.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index ec5e4c4..cd12786 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -860,11 +860,12 @@ impl Value {
         }
         Self::Short(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
         Self::Long(v) => Ok(v[0]),
+        // Cast to unsigned of the same width first, otherwise the sign extends into the next value
         Self::SByte(v) => Ok(
-          (*v.get(0).unwrap_or(&0) as u32)
-            | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-            | ((*v.get(2).unwrap_or(&0) as u32) << 16)
-            | ((*v.get(3).unwrap_or(&0) as u32) << 24),
+          (*v.get(0).unwrap_or(&0) as u8 as u32)
+            | ((*v.get(1).unwrap_or(&0) as u8 as u32) << 8)
+            | ((*v.get(2).unwrap_or(&0) as u8 as u32) << 16)
+            | ((*v.get(3).unwrap_or(&0) as u8 as u32) << 24),
         ),
         Self::Undefined(v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
@@ -872,9 +873,9 @@ impl Value {
             | ((*v.get(2).unwrap_or(&0) as u32) << 16)
             | ((*v.get(3).unwrap_or(&0) as u32) << 24),
         ),
-        Self::SShort(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
+        Self::SShort(v) => Ok((v[0] as u16 as u32) | ((*v.get(1).unwrap_or(&0) as u16 as u32) << 16)),
         Self::SLong(v) => Ok(v[0] as u32),
-        Self::Float(v) => Ok(v[0] as u32),
+        Self::Float(v) => Ok(v[0].to_bits()),
         Self::Unknown(_, v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
             | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-- 
2.43.0


From 8cbb44617b4626c374c15c72ea48e59b35935950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 22/36] fix: read black levels of a DNG relative to its active
 area

---
 rawler/src/decoders/dng.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 0003314..4b7a5f6 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -327,7 +327,14 @@ impl<'a> DngDecoder<'a> {
           log::warn!("File has BlackLevelRepeatDim tag but with invalid length: {}", value.len());
         }
       }
-      Ok(Some(BlackLevel::new(&levels, repeat.1, repeat.0, cpp)))
+      let blacklevel = BlackLevel::new(&levels, repeat.1, repeat.0, cpp);
+      // Same as for CFAPattern, the levels are relative to ActiveArea and
+      // we use (0, 0) as starting point.
+      let (w, h) = (blacklevel.width, blacklevel.height);
+      Ok(Some(match self.get_active_area_borders(raw) {
+        Some([top, left, ..]) if w > 0 && h > 0 => blacklevel.shift(w - left % w, h - top % h),
+        _ => blacklevel,
+      }))
     } else {
       Ok(None)
     }
-- 
2.43.0


From b84feb5ad6e88ac5936ea1a8cb276ec207d25888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:43 +0000
Subject: [PATCH 23/36] fix: undo the shift of a DNG's CFA pattern in the right
 direction

---
 rawler/src/decoders/dng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 4b7a5f6..9c3e3d0 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -362,7 +362,7 @@ impl<'a> DngDecoder<'a> {
     if let Some(active_area) = self.get_active_area_borders(raw) {
       let top = active_area[0];
       let left = active_area[1];
-      Ok(cfa.shift(left % cfa.width, top % cfa.height))
+      Ok(cfa.shift(cfa.width - left % cfa.width, cfa.height - top % cfa.height))
     } else {
       Ok(cfa)
     }
-- 
2.43.0


From 8721b5cfe293bcee8acdd2171c386e58b2a10a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:19 +0000
Subject: [PATCH 24/36] fix: packed rows of an uncompressed TIFF image start at
 byte boundaries

---
 rawler/src/decompressors/packed.rs | 50 ++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/rawler/src/decompressors/packed.rs b/rawler/src/decompressors/packed.rs
index 53fcd7e..16776b4 100644
--- a/rawler/src/decompressors/packed.rs
+++ b/rawler/src/decompressors/packed.rs
@@ -1,7 +1,7 @@
 //! Unpacking of packed bits.
 //!
 //! Raw image data stored with `CompressionMethod::None` packs samples
-//! back-to-back with no padding between them. This module provides
+//! back-to-back with no padding except at the end of a row. This module provides
 //! [`PackedDecompressor`], which dispatches to a bit-depth-specific
 //! unpacker based on the bits-per-sample and byte order declared in the
 //! TIFF IFD:
@@ -111,13 +111,16 @@ fn unpack_16le<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows:
 #[multiversion(targets("x86_64+avx+avx2+fma", "x86+sse", "aarch64+neon"))]
 fn unpack_12be<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows: usize, width: usize) -> std::result::Result<(), String> {
   const BITS: usize = 12;
-  let need = ((skip_rows + lines.len()) * width * BITS).div_ceil(u8::BITS as usize);
+  let stride = row_stride(width, BITS);
+  let need = (skip_rows + lines.len()) * stride;
   if src.len() < need {
     return Err(format!("unpack_12be(): buffer too short ({} < {})", src.len(), need));
   }
   for (row, line) in lines.enumerate() {
-    let inb = &src[((skip_rows + row) * width * BITS / 8)..];
-    for (o, i) in line.as_chunks_mut::<2>().0.into_iter().zip(inb.as_chunks::<3>().0.into_iter()) {
+    let inb = &src[((skip_rows + row) * stride)..];
+    let (pairs, rest) = line.as_chunks_mut::<2>();
+    unpack_row_tail(rest, &inb[pairs.len() * 3..], BITS as u32);
+    for (o, i) in pairs.into_iter().zip(inb.as_chunks::<3>().0.into_iter()) {
       let g1: u16 = i[0] as u16;
       let g2: u16 = i[1] as u16;
       let g3: u16 = i[2] as u16;
@@ -132,14 +135,16 @@ fn unpack_12be<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows:
 #[multiversion(targets("x86_64+avx+avx2+fma", "x86+sse", "aarch64+neon"))]
 fn unpack_10be<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows: usize, width: usize) -> std::result::Result<(), String> {
   const BITS: usize = 10;
-  let need = ((skip_rows + lines.len()) * width * BITS).div_ceil(u8::BITS as usize);
+  let stride = row_stride(width, BITS);
+  let need = (skip_rows + lines.len()) * stride;
   if src.len() < need {
     return Err(format!("unpack_10be(): buffer too short ({} < {})", src.len(), need));
   }
   for (row, line) in lines.enumerate() {
-    let inb = &src[((skip_rows + row) * width * BITS / 8)..];
-
-    for (o, i) in line.as_chunks_mut::<4>().0.into_iter().zip(inb.as_chunks::<5>().0) {
+    let inb = &src[((skip_rows + row) * stride)..];
+    let (quads, rest) = line.as_chunks_mut::<4>();
+    unpack_row_tail(rest, &inb[quads.len() * 5..], BITS as u32);
+    for (o, i) in quads.into_iter().zip(inb.as_chunks::<5>().0) {
       let g1: u16 = i[0] as u16;
       let g2: u16 = i[1] as u16;
       let g3: u16 = i[2] as u16;
@@ -173,22 +178,33 @@ fn unpack_8bit<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows:
 
 #[multiversion(targets("x86_64+avx+avx2+fma", "x86+sse", "aarch64+neon"))]
 fn unpack_generic_msb<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows: usize, width: usize, bits: u32) -> std::result::Result<(), String> {
-  let need = ((skip_rows + lines.len()) * width * bits as usize).div_ceil(u8::BITS as usize);
+  let stride = row_stride(width, bits as usize);
+  let need = (skip_rows + lines.len()) * stride;
   if src.len() < need {
     return Err(format!("unpack_generic_msb(): buffer too short ({} < {})", src.len(), need));
   }
   assert!(bits <= 16);
-  let skip_bits = skip_rows * width * bits as usize;
-  let offset = skip_bits / 8;
-  let bias = skip_bits % 8;
-  let mut pump = BitPumpMSB::new(&src[offset..]);
-  pump.consume_bits(bias as u32);
-  for line in lines {
-    for p in line {
+  for (row, line) in lines.enumerate() {
+    unpack_row_tail(line, &src[((skip_rows + row) * stride)..], bits);
+  }
+  Ok(())
+}
+
+/// Number of bytes of a packed row. TIFF packs as tightly as possible, but every row
+/// starts at a byte boundary.
+fn row_stride(width: usize, bits: usize) -> usize {
+  (width * bits).div_ceil(u8::BITS as usize)
+}
+
+/// Unpack the samples of a row that don't fill a whole group of bytes.
+#[inline(always)]
+fn unpack_row_tail(out: &mut [u16], src: &[u8], bits: u32) {
+  if !out.is_empty() {
+    let mut pump = BitPumpMSB::new(src);
+    for p in out {
       *p = pump.get_bits(bits) as u16;
     }
   }
-  Ok(())
 }
 
 impl<'a> Decompressor<'a, f32> for PackedDecompressor {
-- 
2.43.0


From ac8063adfd55f3d799767cf248ebf83749343157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:12 +0000
Subject: [PATCH 25/36] fix: process-raw --keep-mtime fails for files without a
 valid date

---
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index caae65e..2f4c468 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -60,7 +60,11 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
   let decoder = rawler::get_decoder(rawfile)?;
   let raw_params = RawDecodeParams { image_index: params.index };
   let metadata = decoder.raw_metadata(rawfile, &raw_params)?;
-  if let Some(ts) = metadata.last_modified()?.or(fallback) {
+  let last_modified = metadata.last_modified().unwrap_or_else(|err| {
+    log::warn!("Failed to get last-modified: {:?}", err);
+    None
+  });
+  if let Some(ts) = last_modified.or(fallback) {
     file.set_modified(ts)?;
     let datetime: chrono::DateTime<Local> = ts.into();
     log::debug!("Set mtime for output file to {}", datetime.format("%d/%m/%Y %T"));
-- 
2.43.0


From 19aedd3d67c62ab3b242050087017cfb18085f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:29 +0000
Subject: [PATCH 26/36] fix: cyclic IFD chain and damaged EXIF segment make the
 reader loop forever

---
 rawler/src/formats/jfif.rs        | 6 +++++-
 rawler/src/formats/tiff/reader.rs | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index 05f8964..f153cb3 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -232,7 +232,11 @@ impl Jfif {
           Ok(app1) => Segment::APP1 { offset: pos, app1 },
           Err(err) => {
             log::warn!("Failed to read APP1 (EXIF) segement, maybe corrupt: {:?}", err);
-            continue;
+            // Skip the segment
+            reader.seek(SeekFrom::Start(pos + 2))?;
+            let len: u64 = reader.read_u16::<BigEndian>()? as u64;
+            reader.seek(SeekFrom::Start(pos + 2 + len))?;
+            Segment::Unknown { offset: pos, marker: symbol }
           }
         },
         0xFFDA => Segment::SOS {
diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index 527550d..de53be9 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -8,6 +8,7 @@ use crate::{
 };
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
+use std::collections::HashSet;
 use std::io::{Cursor, Read, Seek, SeekFrom};
 
 pub trait TiffReader {
@@ -167,7 +168,12 @@ pub trait TiffReader {
 
     next_ifd = apply_corr(next_ifd, self.file().corr);
     let mut chain = Vec::new();
+    let mut visited = HashSet::new();
     while next_ifd != 0 {
+      if !visited.insert(next_ifd) {
+        log::warn!("TIFF: IFD chain contains a cycle at offset {}, ignoring remaining chain", next_ifd);
+        break;
+      }
       // TODO: check if offset is in range
       let mut multi_sub_tags = self.wellknown_sub_ifd_tags();
       multi_sub_tags.extend_from_slice(sub_tags);
-- 
2.43.0


From 9f756e7d539a21d42dbec72e254ca2ca5c3daddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:47 +0000
Subject: [PATCH 27/36] fix: a panic while counting the images of a damaged
 file ends the whole run

---
 rawler/src/decoders/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/mod.rs b/rawler/src/decoders/mod.rs
index 8d576b4..f4c3fb8 100644
--- a/rawler/src/decoders/mod.rs
+++ b/rawler/src/decoders/mod.rs
@@ -1100,8 +1100,10 @@ impl RawLoader {
   /// Decodes a file into a RawImage
   pub fn raw_image_count_file(&self, path: &Path) -> Result<usize> {
     let rawfile = RawSource::new(path).map_err(|err| RawlerError::with_io_error("raw_image_count_file()", path, err))?;
-    let decoder = self.get_decoder(&rawfile)?;
-    decoder.raw_image_count()
+    match panic::catch_unwind(AssertUnwindSafe(|| self.get_decoder(&rawfile)?.raw_image_count())) {
+      Ok(val) => val,
+      Err(_) => Err(RawlerError::DecoderFailed(format!("Caught a panic while decoding.{}", BUG))),
+    }
   }
 
   // Decodes an unwrapped input (just the image data with minimal metadata) into a RawImage
-- 
2.43.0


From 45f9d2202d9a2f88a61b577244c6c8d576810824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:10 +0000
Subject: [PATCH 28/36] fix: extract panics on a DNG whose original digest has
 an unexpected type

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index e2c6b55..6bfdfd2 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -72,8 +72,10 @@ impl ExtractRawJob {
       if let Value::Undefined(val) = &orig_data.value {
         let digest = file
           .get_entry(DngTag::OriginalRawFileDigest)
-          .map(|entry| entry.value.get_data().as_slice())
-          .and_then(|data| OriginalDigest::try_from(data).ok());
+          .and_then(|entry| match &entry.value {
+            Value::Byte(data) | Value::Undefined(data) => OriginalDigest::try_from(data.as_slice()).ok(),
+            _ => None,
+          });
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
         let mut stream = BufWriter::new(create_output(&self.output, self.replace)?);
-- 
2.43.0


From d1c34580134464332431789bd05a85133c4c1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 29/36] fix: makedng leaves an incomplete DNG behind if
 decoding an input panics

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index fc19518..06af308 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -4,6 +4,7 @@
 use clap::ArgMatches;
 use clap::builder::{NonEmptyStringValueParser, TypedValueParser};
 
+use futures::FutureExt;
 use image::DynamicImage;
 use itertools::Itertools;
 use rawler::decoders::{RawDecodeParams, RawMetadata};
@@ -24,6 +25,7 @@ use crate::jobs::is_same_file;
 use std::fs::{File, remove_file};
 use std::io::{BufWriter, Write};
 use std::num::ParseFloatError;
+use std::panic::AssertUnwindSafe;
 use std::path::PathBuf;
 
 use std::str::FromStr;
@@ -75,7 +77,10 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
   };
 
   // The output file is ours now, don't leave an incomplete DNG behind.
-  let result = makedng_internal(options, &inputs, &maps, file).await;
+  let result = AssertUnwindSafe(makedng_internal(options, &inputs, &maps, file))
+    .catch_unwind()
+    .await
+    .unwrap_or_else(|_| Err(crate::AppError::General("Panic while creating the DNG file".into())));
   match &result {
     Ok(_) => println!("File saved to: {}", dest_path.display()),
     Err(_) => {
-- 
2.43.0


From b46ad9805675fa176d6e383a30ab905cf1ea3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 30/36] fix: BMFF box of size zero makes the parser loop until
 memory is exhausted

---
 rawler/src/formats/bmff/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/bmff/mod.rs b/rawler/src/formats/bmff/mod.rs
index 4127787..c04b406 100644
--- a/rawler/src/formats/bmff/mod.rs
+++ b/rawler/src/formats/bmff/mod.rs
@@ -82,12 +82,17 @@ impl BoxHeader {
     }
 
     let current = reader.stream_position()?;
+    let header_len = current - start;
+    // A box includes its header, otherwise parsing of boxes would never come to an end.
+    if size < header_len || start.checked_add(size).is_none() {
+      return Err(BmffError::Parse(format!("Invalid BMFF box size: {}, corrupt file?", size)));
+    }
     Ok(BoxHeader {
       size,
       typ,
       uuid,
       offset: start,
-      header_len: current - start,
+      header_len,
     })
   }
 
-- 
2.43.0


From 38b524d4e8ec2629a5a7149ccdd93b57bf9c4cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:40 +0000
Subject: [PATCH 31/36] fix: Exif and GPS directories of MRW files are lost

The sub directories of the TIFF block were never parsed, so that exposure,
date and position of the image were missing in the DNG.
---
 rawler/src/decoders/mrw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/mrw.rs b/rawler/src/decoders/mrw.rs
index 263d7b3..4fe8056 100644
--- a/rawler/src/decoders/mrw.rs
+++ b/rawler/src/decoders/mrw.rs
@@ -16,6 +16,7 @@ use crate::formats::jfif::Segment;
 use crate::formats::jfif::is_exif;
 use crate::formats::tiff::IFD;
 use crate::rawsource::RawSource;
+use crate::tags::ExifTag;
 use crate::tags::TiffCommonTag;
 use std::io::Cursor;
 
@@ -186,7 +187,8 @@ impl<'a> MrwDecoder<'a> {
     }
 
     let tiff_data = file.subview_until_eof(tiffpos as u64)?;
-    let tiff = IFD::new(&mut Cursor::new(tiff_data), 8, 0, 0, crate::bits::Endian::Big, &[])?;
+    let sub_tags = [TiffCommonTag::ExifIFDPointer.into(), ExifTag::GPSInfo.into()];
+    let tiff = IFD::new(&mut Cursor::new(tiff_data), 8, 0, 0, crate::bits::Endian::Big, &sub_tags)?;
 
     let camera = rawloader.check_supported(&tiff)?;
 
-- 
2.43.0


From 57ace74b84a2d468aff37e65da7b155807978154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:40 +0000
Subject: [PATCH 32/36] fix: PEF file whose compressed data ends with the file
 cannot be decoded

The bit pump reads some bytes ahead, so the data needs padding.
---
 rawler/src/decoders/pef.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/pef.rs b/rawler/src/decoders/pef.rs
index f40eef6..3098ba6 100644
--- a/rawler/src/decoders/pef.rs
+++ b/rawler/src/decoders/pef.rs
@@ -116,7 +116,9 @@ impl<'a> Decoder for PefDecoder<'a> {
     let image = match fetch_tiff_tag!(raw, TiffCommonTag::Compression).get_u32(0) {
       Ok(Some(1)) => decompress_16be(src, width, height, dummy)?,
       Ok(Some(32773)) => decompress_12be(src, width, height, dummy)?,
-      Ok(Some(65535)) => self.decode_compressed(src, width, height, dummy)?,
+      // The Huffman decoder peeks beyond the last code, so the data needs padding
+      // when it ends at the end of the file.
+      Ok(Some(65535)) => self.decode_compressed(&file.subview_until_eof_padded(offset as u64)?, width, height, dummy)?,
       Ok(Some(c)) => return Err(RawlerError::unsupported(&self.camera, format!("PEF: Don't know how to read compression {}", c))),
       _ => return Err(RawlerError::unsupported(&self.camera, "PEF: No compression tag found")),
     };
-- 
2.43.0


From 33b14cd16de92029aadf6f73fda9f7e90298e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 33/36] fix: one unreadable directory or a circular link ends a
 whole directory run

An entry that cannot be examined is listed as failed, all other files are
still processed. Links to a directory that is already being read are ignored.
---
 bin/dnglab/dnglab-lib/src/convert.rs     |  12 ++-
 bin/dnglab/dnglab-lib/src/extract.rs     |  14 ++-
 bin/dnglab/dnglab-lib/src/filemap.rs     | 112 ++++++++++++++---------
 bin/dnglab/dnglab-lib/src/jobs/mod.rs    |   6 +-
 bin/dnglab/dnglab-lib/src/process_raw.rs |  12 ++-
 5 files changed, 109 insertions(+), 47 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index 3cb6cd8..7259851 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -55,7 +55,17 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       let inputs = InputSet::new(&list);
-      for entry in list {
+      results.extend(list.failed.into_iter().map(|(entry, err)| JobResult {
+        job: Raw2DngJob {
+          input: entry.src,
+          output: entry.dest,
+          replace: options.get_flag("override"),
+          params: ConvertParams::default(),
+        },
+        duration: 0.0,
+        error: Some(err),
+      }));
+      for entry in list.files {
         match generate_job(&entry, options, &mut claimed) {
           Ok(new_jobs) => {
             for job in new_jobs {
diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 49ed781..636fa58 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -55,9 +55,19 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
 
-      let tmp: Vec<Result<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
+      let tmp: Vec<Result<ExtractRawJob>> = list.files.par_iter().map(|entry| generate_job(entry, options, true)).collect();
       let inputs = InputSet::new(&list);
-      for (entry, job) in list.iter().zip(tmp) {
+      results.extend(list.failed.into_iter().map(|(entry, err)| JobResult {
+        job: ExtractRawJob {
+          input: entry.src,
+          output: entry.dest,
+          replace: options.get_flag("override"),
+          skip_checks: options.get_flag("skipchecks"),
+        },
+        duration: 0.0,
+        error: Some(err),
+      }));
+      for (entry, job) in list.files.iter().zip(tmp) {
         match job.and_then(|job| if job.replace { inputs.check_output(&job.output).map(|_| job) } else { Ok(job) }) {
           Ok(job) => jobs.push(job),
           // A single unusable file must not prevent extraction of all others.
diff --git a/bin/dnglab/dnglab-lib/src/filemap.rs b/bin/dnglab/dnglab-lib/src/filemap.rs
index 98822b5..f8aafb5 100644
--- a/bin/dnglab/dnglab-lib/src/filemap.rs
+++ b/bin/dnglab/dnglab-lib/src/filemap.rs
@@ -22,6 +22,15 @@ pub struct DirMap {
   pub dest: PathBuf,
 }
 
+/// Files found in a directory
+#[derive(Debug, Default)]
+pub struct FileList {
+  /// Source/destination mapped files
+  pub files: Vec<FileMap>,
+  /// Entries that could not be examined, like unreadable sub directories
+  pub failed: Vec<(FileMap, AppError)>,
+}
+
 /// Process mode
 #[derive(Debug, Clone)]
 pub enum MapMode {
@@ -53,17 +62,72 @@ impl DirMap {
   }
 
   /// Get file list of source/destination mapped files
-  pub fn file_list<F>(&self, recursive: bool, filter: F) -> Result<Vec<FileMap>>
+  pub fn file_list<F>(&self, recursive: bool, filter: F) -> Result<FileList>
+  where
+    F: Fn(&Path) -> bool + Copy,
+  {
+    let mut list = FileList::default();
+    self.read_filtered_dir(&self.src, recursive, filter, &mut vec![self.src.clone()], &mut list)?;
+    Ok(list)
+  }
+
+  /// Read directory (optionally recursive) and filter entries
+  ///
+  /// `parents` are the directories being read, a link to one of them would never end.
+  fn read_filtered_dir<F>(&self, input: &Path, recursive: bool, filter: F, parents: &mut Vec<PathBuf>, list: &mut FileList) -> Result<()>
+  where
+    F: Fn(&Path) -> bool + Copy,
+  {
+    for entry in read_dir(input)? {
+      let path = entry?.path();
+      let in_md = match fs::metadata(&path) {
+        Ok(in_md) => in_md,
+        // Dangling symlinks or files deleted in the meantime
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => {
+          warn!("Ignoring {}: {}", path.display(), err);
+          continue;
+        }
+        // A single bad entry must not prevent processing of all others.
+        Err(err) => {
+          if recursive || filter(&path) {
+            list.failed.push((self.make_mapping(&path)?, err.into()));
+          } else {
+            warn!("Ignoring {}: {}", path.display(), err);
+          }
+          continue;
+        }
+      };
+      if in_md.is_file() {
+        if filter(&path) {
+          list.files.push(self.make_mapping(&path)?);
+        }
+      } else if in_md.is_dir() {
+        if recursive {
+          if let Err(err) = self.read_sub_dir(&path, filter, parents, list) {
+            list.failed.push((self.make_mapping(&path)?, err));
+          }
+        }
+      } else {
+        // If we hit sockets, device files etc. just warn and ignore them.
+        warn!("Unable to determine type of {}", path.display());
+      }
+    }
+    Ok(())
+  }
+
+  fn read_sub_dir<F>(&self, path: &Path, filter: F, parents: &mut Vec<PathBuf>, list: &mut FileList) -> Result<()>
   where
     F: Fn(&Path) -> bool + Copy,
   {
-    let mut result = Vec::new();
-    let entries = read_filtered_dir(&self.src, recursive, filter)?;
-    for entry in entries {
-      let map = self.make_mapping(&entry)?;
-      result.push(map);
+    let real_path = path.canonicalize()?;
+    if parents.contains(&real_path) {
+      warn!("Ignoring {}: link to a parent directory", path.display());
+      return Ok(());
     }
-    Ok(result)
+    parents.push(real_path);
+    let result = self.read_filtered_dir(path, true, filter, parents, list);
+    parents.pop();
+    result
   }
 
   /// Map `input` path to output, add sub directories if required
@@ -106,37 +170,3 @@ impl MapMode {
     }
   }
 }
-
-/// Read directory (optionally recursive) and filter entries
-fn read_filtered_dir<F>(input: &Path, recursive: bool, filter: F) -> Result<Vec<PathBuf>>
-where
-  F: Fn(&Path) -> bool + Copy,
-{
-  let mut result = Vec::new();
-  let dir = read_dir(input)?;
-  for entry in dir {
-    let entry = entry?;
-    let in_md = match fs::metadata(entry.path()) {
-      Ok(in_md) => in_md,
-      // Dangling symlinks or files deleted in the meantime
-      Err(err) if err.kind() == std::io::ErrorKind::NotFound => {
-        warn!("Ignoring {}: {}", entry.path().display(), err);
-        continue;
-      }
-      Err(err) => return Err(err.into()),
-    };
-    if in_md.is_file() {
-      if filter(&entry.path()) {
-        result.push(entry.path());
-      }
-    } else if in_md.is_dir() {
-      if recursive {
-        result.extend(read_filtered_dir(&entry.path(), recursive, filter)?);
-      }
-    } else {
-      // If we hit sockets, device files etc. just warn and ignore them.
-      warn!("Unable to determine type of {}", entry.path().display());
-    }
-  }
-  Ok(result)
-}
diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index e0709c1..cbaee82 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -7,7 +7,7 @@ use std::fmt::Debug;
 use std::fs::File;
 use std::path::{Path, PathBuf};
 
-use crate::filemap::FileMap;
+use crate::filemap::FileList;
 use crate::{AppError, Result};
 
 pub mod extractraw;
@@ -44,10 +44,12 @@ pub(crate) fn is_same_file(a: &Path, b: &Path) -> Result<bool> {
 pub(crate) struct InputSet(HashSet<PathBuf>);
 
 impl InputSet {
-  pub(crate) fn new(list: &[FileMap]) -> Self {
+  pub(crate) fn new(list: &FileList) -> Self {
     Self(
       list
+        .files
         .iter()
+        .chain(list.failed.iter().map(|(entry, _)| entry))
         .map(|entry| entry.src.canonicalize().unwrap_or_else(|_| entry.src.clone()))
         .collect(),
     )
diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 3c691b5..d8e3a27 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -54,7 +54,17 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       let inputs = InputSet::new(&list);
-      for entry in list {
+      results.extend(list.failed.into_iter().map(|(entry, err)| JobResult {
+        job: Raw2Image {
+          input: entry.src,
+          output: entry.dest,
+          replace: options.get_flag("override"),
+          params: RawProcessingParams::default(),
+        },
+        duration: 0.0,
+        error: Some(err),
+      }));
+      for entry in list.files {
         match generate_job(&entry, options, &mut claimed) {
           Ok(new_jobs) => {
             for job in new_jobs {
-- 
2.43.0


From d2b26a70aa14964ff9da92350e32e633066c1d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:09 +0000
Subject: [PATCH 34/36] fix: extract --override writes several originals of one
 name into one file

Files written by the same run must not be replaced, the first one would be
lost although it counts as extracted.
---
 bin/dnglab/dnglab-lib/src/extract.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 636fa58..45777e1 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -7,6 +7,7 @@ use rawler::formats::tiff::reader::TiffReader;
 use rawler::formats::tiff::{Entry, GenericTiffReader, Value};
 use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
+use std::collections::HashSet;
 use std::fs::File;
 use std::io::BufReader;
 use std::path::{Path, PathBuf};
@@ -57,6 +58,7 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
 
       let tmp: Vec<Result<ExtractRawJob>> = list.files.par_iter().map(|entry| generate_job(entry, options, true)).collect();
       let inputs = InputSet::new(&list);
+      let mut claimed = HashSet::new();
       results.extend(list.failed.into_iter().map(|(entry, err)| JobResult {
         job: ExtractRawJob {
           input: entry.src,
@@ -68,7 +70,17 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
         error: Some(err),
       }));
       for (entry, job) in list.files.iter().zip(tmp) {
-        match job.and_then(|job| if job.replace { inputs.check_output(&job.output).map(|_| job) } else { Ok(job) }) {
+        let job = job.and_then(|job| {
+          if job.replace {
+            inputs.check_output(&job.output)?;
+            // Only files of earlier runs may be replaced.
+            if !claimed.insert(job.output.clone()) {
+              return Err(AppError::AlreadyExists(job.output));
+            }
+          }
+          Ok(job)
+        });
+        match job {
           Ok(job) => jobs.push(job),
           // A single unusable file must not prevent extraction of all others.
           Err(err) => results.push(JobResult {
-- 
2.43.0


From 899663ccf86efd8b54c23e18af52b033d48e1468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:01 +0000
Subject: [PATCH 35/36] fix: DNG of a file whose name is not UTF-8 stores no
 original file name

---
 rawler/src/dng/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/convert.rs b/rawler/src/dng/convert.rs
index fc78cdb..c773f5f 100644
--- a/rawler/src/dng/convert.rs
+++ b/rawler/src/dng/convert.rs
@@ -77,7 +77,7 @@ impl Default for ConvertParams {
 /// how to handle existing target files, buffering, etc.
 /// This is up to the caller.
 pub fn convert_raw_file<W: Write + Seek + Send>(raw: &Path, dng: &mut W, params: &ConvertParams) -> crate::Result<ConvertInfo> {
-  let original_filename = raw.file_name().and_then(OsStr::to_str).unwrap_or_default();
+  let original_filename = raw.file_name().map(OsStr::to_string_lossy).unwrap_or_default();
   //let raw_stream = BufReader::new(File::open(raw)?); // TODO: add path hint to error?
   //let rawfile = RawFile::new(PathBuf::from(raw), raw_stream);
 
-- 
2.43.0


From bed368ef6266f37bf4c167149d1dc39c6e6d3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:01 +0000
Subject: [PATCH 36/36] fix: recursive extract fails for sub directories that
 do not exist in the output directory

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index 6bfdfd2..eb61bdd 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -12,7 +12,7 @@ use rawler::{
 };
 use std::{
   fmt::Display,
-  fs::remove_file,
+  fs::{create_dir_all, remove_file},
   io::{BufReader, BufWriter, Cursor, Write},
 };
 use std::{fs::File, path::PathBuf, time::Instant};
@@ -78,6 +78,10 @@ impl ExtractRawJob {
           });
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
+        if let Some(parent) = self.output.parent() {
+          // Sub directories of a recursive run
+          create_dir_all(parent)?;
+        }
         let mut stream = BufWriter::new(create_output(&self.output, self.replace)?);
         if let Err(err) = original.decompress(&mut stream, !self.skip_checks).and_then(|_| stream.flush()) {
           drop(original);
-- 
2.43.0

