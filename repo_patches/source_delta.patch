From daa13d3f6d5b30a03da6af5b9f788f87f4467b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 01/47] fix: do not build lookup paths from empty, "." and ".."
 file names

A file name such as ".." or "/" in a crash report produced locations that
were absolute or left the root of the symbol source.
---
 crates/symbolicator-sources/src/types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/symbolicator-sources/src/types.rs b/crates/symbolicator-sources/src/types.rs
index 80b556c..9f02daf 100644
--- a/crates/symbolicator-sources/src/types.rs
+++ b/crates/symbolicator-sources/src/types.rs
@@ -152,10 +152,14 @@ impl ObjectId {
 /// Returns the "valid" basename of the file.
 ///
 /// The basename is valid if:
+/// - it is not empty and not one of the special directory names `.` and `..`,
 /// - it is not longer than 255 bytes and
 /// - does not contain a control character
 fn valid_file_name(file_name: &str) -> Option<&str> {
     let basename = split_path(file_name).1;
+    if matches!(basename, "" | "." | "..") {
+        return None;
+    }
     if basename.len() < 256 && !basename.contains(|c: char| c.is_control()) {
         return Some(basename);
     }
-- 
2.43.0


From 4d49804bc2aa5484f10861bc4a368051da599e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 02/47] fix: do not build absolute debuginfod paths from empty
 code ids

---
 crates/symbolicator-sources/src/paths.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 36c86d8..15c6d1b 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -304,15 +304,11 @@ fn get_symstore_index2_path(filetype: FileType, identifier: &ObjectId) -> Option
 ///
 /// Some file types are not supported by this symbol server and will return no result.
 fn get_debuginfod_path(filetype: FileType, identifier: &ObjectId) -> Option<String> {
+    let code_id = identifier.code_id.as_ref().filter(|id| !id.is_nil());
+
     match filetype {
-        FileType::ElfCode => {
-            let code_id = identifier.code_id.as_ref()?.as_str();
-            Some(format!("{code_id}/executable"))
-        }
-        FileType::ElfDebug => {
-            let code_id = identifier.code_id.as_ref()?.as_str();
-            Some(format!("{code_id}/debuginfo"))
-        }
+        FileType::ElfCode => Some(format!("{}/executable", code_id?)),
+        FileType::ElfDebug => Some(format!("{}/debuginfo", code_id?)),
 
         // Mach is not supported
         FileType::MachCode | FileType::MachDebug => None,
-- 
2.43.0


From 53fe2530874284436a777d52e3a29bea139b52ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 03/47] fix: replace the .exe and .dll extensions in breakpad
 paths

The chain fell back to the full file name after every step, so only .pdb was
ever replaced, contrary to the documented layout.
---
 crates/symbolicator-sources/src/paths.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 15c6d1b..a47d2e3 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -105,12 +105,9 @@ fn get_breakpad_path(identifier: &ObjectId) -> Option<String> {
 
     let debug_file = identifier.validated_debug_file_basename()?;
     let debug_id = identifier.debug_id.as_ref()?;
-    let new_debug_file = debug_file
-        .strip_suffix(".exe")
-        .unwrap_or(debug_file)
-        .strip_suffix(".dll")
-        .unwrap_or(debug_file)
-        .strip_suffix(".pdb")
+    let new_debug_file = [".exe", ".dll", ".pdb"]
+        .iter()
+        .find_map(|extension| debug_file.strip_suffix(extension))
         .unwrap_or(debug_file);
 
     Some(format!(
-- 
2.43.0


From 42e1e87d0168c3c53ea754e1822b30fa75bceed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 04/47] fix: parse symstore paths with uppercase non-ASCII file
 names

Only one of the two file names was lowercased with Unicode rules, so that
identical names compared as different.
---
 crates/symbolicator-sources/src/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index a47d2e3..b595a6b 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -476,7 +476,7 @@ pub fn parse_symstore_path(path: &str) -> Option<(&'static [FileType], ObjectId)
     let trailing_fn = split.next()?;
 
     let leading_fn_lower = leading_fn.to_lowercase();
-    if !leading_fn_lower.eq_ignore_ascii_case(trailing_fn) {
+    if leading_fn_lower != trailing_fn.to_lowercase() {
         return None;
     }
 
-- 
2.43.0


From 284f7d55a1bf9fbbc7b84b549c2c78e46b1dc026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 05/47] fix: percent-encode the full path in
 RemoteFileUri::from_parts

Resolving the path as a relative reference interpreted "%XX", "?", "#" and
scheme-like prefixes in file names, which gave different files the same URI
(and with it the same cache key), or a URI outside of the bucket.
---
 crates/symbolicator-sources/src/remotefile.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-sources/src/remotefile.rs b/crates/symbolicator-sources/src/remotefile.rs
index 4a280de..0bb37ed 100644
--- a/crates/symbolicator-sources/src/remotefile.rs
+++ b/crates/symbolicator-sources/src/remotefile.rs
@@ -342,9 +342,15 @@ impl RemoteFileUri {
     /// ```
     pub fn from_parts(scheme: &str, host: &str, path: &str) -> Self {
         Url::parse(&format!("{scheme}://{host}/"))
-            .and_then(|base| base.join(path))
-            .map(|url| RemoteFileUri::new(url.as_str()))
-            .unwrap_or_else(|_| {
+            .ok()
+            .and_then(|mut url| {
+                url.path_segments_mut()
+                    .ok()?
+                    .clear()
+                    .extend(path.split('/'));
+                Some(RemoteFileUri::new(url.as_str()))
+            })
+            .unwrap_or_else(|| {
                 // All these Result-returning operations *should* be infallible and this
                 // branch should never be used.  Nevertheless, for panic-safety we default
                 // to something infallible that's also pretty correct.
-- 
2.43.0


From b5784d9578e836b0bec29e196861b8c84a5f2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 06/47] fix: distinguish S3 credentials providers when
 comparing source keys

The S3 client cache is keyed by S3SourceKey, so a source using static keys
could reuse the client of a source using container credentials.
---
 crates/symbolicator-sources/src/sources/s3.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/sources/s3.rs b/crates/symbolicator-sources/src/sources/s3.rs
index 63f89dd..89b8763 100644
--- a/crates/symbolicator-sources/src/sources/s3.rs
+++ b/crates/symbolicator-sources/src/sources/s3.rs
@@ -134,7 +134,7 @@ where
 /// <https://docs.aws.amazon.com/AmazonECS/latest/developerguide/task-iam-roles.html>.
 #[derive(Clone, Copy, Debug, Deserialize, Serialize)]
 #[serde(rename_all = "lowercase")]
-#[derive(Default)]
+#[derive(Default, PartialEq, Eq, Hash)]
 pub enum AwsCredentialsProvider {
     /// Static Credentials
     #[default]
@@ -190,6 +190,7 @@ impl PartialEq for S3SourceKey {
         self.access_key == other.access_key
             && self.secret_key == other.secret_key
             && self.region == other.region
+            && self.aws_credentials_provider == other.aws_credentials_provider
     }
 }
 
@@ -200,6 +201,7 @@ impl std::hash::Hash for S3SourceKey {
         self.access_key.hash(state);
         self.secret_key.hash(state);
         self.region.hash(state);
+        self.aws_credentials_provider.hash(state);
     }
 }
 
-- 
2.43.0


From 24bc1a70978ab0c99f11bf7259130becd4eb7cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 07/47] fix: only skip the duplicate object instead of its
 whole archive in symsorter

When one slice of a fat archive was already present in the output, the
remaining slices were not sorted and the ones already written were left
out of the bundle manifest and the summary.
---
 crates/symsorter/src/app.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index beeadb1..3e93f14 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -169,7 +169,7 @@ fn process_file(
                     new_filename.display(),
                     get_unified_id(&obj)?,
                 );
-                return Ok(vec![]);
+                continue;
             }
             Err(e) => return Err(e.into()),
         };
-- 
2.43.0


From 272067778fb43b5267ac5942bdd49ac5716db4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 08/47] fix: do not replace the metadata of a stored file with
 that of a skipped duplicate

The .meta file was written before symsorter found out that the object
already exists, so it ended up describing (or, with concurrent
duplicates, being a mix of) files that were never stored.
---
 crates/symsorter/src/app.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index 3e93f14..ae0009a 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -140,6 +140,21 @@ fn process_file(
             fs::write(refs_path.join(bundle_id), b"")?;
         }
 
+        let mut out = match fs::File::create_new(&new_filename) {
+            Ok(out) => out,
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
+                eprintln!(
+                    "{}: File {} already exists, you seem to have duplicate debug files for ID {}.\n\
+                    Skipping {filename}.",
+                    style("WARNING").red().bold(),
+                    new_filename.display(),
+                    get_unified_id(&obj)?,
+                );
+                continue;
+            }
+            Err(e) => return Err(e.into()),
+        };
+
         let meta = DebugIdMeta {
             name: Some(filename.clone()),
             arch: Some(obj.arch()),
@@ -159,21 +174,6 @@ fn process_file(
             style(new_filename.display()).cyan(),
         );
 
-        let mut out = match fs::File::create_new(&new_filename) {
-            Ok(out) => out,
-            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
-                eprintln!(
-                    "{}: File {} already exists, you seem to have duplicate debug files for ID {}.\n\
-                    Skipping {filename}.",
-                    style("WARNING").red().bold(),
-                    new_filename.display(),
-                    get_unified_id(&obj)?,
-                );
-                continue;
-            }
-            Err(e) => return Err(e.into()),
-        };
-
         if compression_level > 0 {
             copy_encode(obj.data(), &mut out, compression_level)?;
         } else {
-- 
2.43.0


From 430914f825a0fee90f16455ed8d7fd1db307290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 09/47] fix: report the number of created source bundles in
 symsorter

The counts were multiplied instead of added, so the summary always
reported zero.
---
 crates/symsorter/src/app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index ae0009a..da70df3 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -357,7 +357,7 @@ fn execute(cli: Cli) -> Result<()> {
             let (debug_files_sorted, source_bundles_created) =
                 sort_files(&sort_config, vec![path])?;
             debug_files += debug_files_sorted;
-            source_bundles *= source_bundles_created;
+            source_bundles += source_bundles_created;
         }
     } else {
         if let Some(bundle_id) = cli.bundle_id {
@@ -366,7 +366,7 @@ fn execute(cli: Cli) -> Result<()> {
         }
         let (debug_files_sorted, source_bundles_created) = sort_files(&sort_config, cli.input)?;
         debug_files += debug_files_sorted;
-        source_bundles *= source_bundles_created;
+        source_bundles += source_bundles_created;
     }
 
     log!();
-- 
2.43.0


From 237728d00da57b76830ede16db5997670bfa3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 10/47] fix: do not panic on objects with empty or
 one-character code ids in symsorter

A wasm file with an empty build_id section or a breakpad file with a
code id that has no hexadecimal digits made symsorter panic, even with
--ignore-errors.
---
 crates/symsorter/src/utils.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/symsorter/src/utils.rs b/crates/symsorter/src/utils.rs
index 9c11096..9e16fbf 100644
--- a/crates/symsorter/src/utils.rs
+++ b/crates/symsorter/src/utils.rs
@@ -39,7 +39,8 @@ pub fn is_bundle_id(input: &str) -> bool {
 
 /// Gets the unified ID from an object.
 pub fn get_unified_id(obj: &Object) -> Result<String> {
-    if obj.file_format() == FileFormat::Pe || obj.code_id().is_none() {
+    let code_id = obj.code_id().filter(|code_id| !code_id.is_nil());
+    if obj.file_format() == FileFormat::Pe || code_id.is_none() {
         let debug_id = obj.debug_id();
         if debug_id.is_nil() {
             Err(anyhow!("failed to generate debug identifier"))
@@ -47,7 +48,7 @@ pub fn get_unified_id(obj: &Object) -> Result<String> {
             Ok(debug_id.breakpad().to_string().to_lowercase())
         }
     } else {
-        Ok(obj.code_id().as_ref().unwrap().as_str().to_string())
+        Ok(code_id.as_ref().unwrap().as_str().to_string())
     }
 }
 
@@ -61,7 +62,10 @@ pub fn get_target_filename(obj: &Object) -> Result<PathBuf> {
         ObjectKind::Library | ObjectKind::Executable => "executable",
         _ => bail!("unsupported file"),
     };
-    Ok(format!("{}/{}/{}", &id[..2], &id[2..], suffix).into())
+    let (Some(prefix), Some(rest)) = (id.get(..2), id.get(2..)) else {
+        bail!("identifier {id:?} is too short");
+    };
+    Ok(format!("{prefix}/{rest}/{suffix}").into())
 }
 
 // Filters very large files, embedded source files, and Precompiled headers from Source bundles.
-- 
2.43.0


From ebb77d42f2a637bf28cd26a8fbe57bad22d9b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 11/47] fix: refuse bundle ids that cannot name a file in
 symsorter

The ids "", "." and ".." passed the check for safe bundle ids, so the
references and the manifest ended up at (or failed to be written to)
directories. Inputs without a name, like `.`, panicked with
--multiple-bundles.
---
 crates/symsorter/src/app.rs   | 12 +++++++++++-
 crates/symsorter/src/utils.rs |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index da70df3..5c6f193 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -351,7 +351,17 @@ fn execute(cli: Cli) -> Result<()> {
 
     if cli.multiple_bundles {
         for path in cli.input.into_iter() {
-            let bundle_id = make_bundle_id(&path.file_name().unwrap().to_string_lossy());
+            // paths such as `.` only have a name once they are resolved
+            let name = match path.file_name() {
+                Some(name) => Some(name.to_owned()),
+                None => fs::canonicalize(&path)?.file_name().map(ToOwned::to_owned),
+            };
+            let bundle_id = make_bundle_id(&name.unwrap_or_default().to_string_lossy());
+            anyhow::ensure!(
+                is_bundle_id(&bundle_id),
+                "Cannot derive a bundle id from {}",
+                path.display()
+            );
             log!("[bundle: {}]", style(&bundle_id).dim());
             sort_config.bundle_id = Some(bundle_id);
             let (debug_files_sorted, source_bundles_created) =
diff --git a/crates/symsorter/src/utils.rs b/crates/symsorter/src/utils.rs
index 9e16fbf..0fdc3a5 100644
--- a/crates/symsorter/src/utils.rs
+++ b/crates/symsorter/src/utils.rs
@@ -34,7 +34,7 @@ pub fn make_bundle_id(input: &str) -> String {
 
 /// Checks if something is a safe bundle id
 pub fn is_bundle_id(input: &str) -> bool {
-    make_bundle_id(input) == input
+    !matches!(input, "" | "." | "..") && make_bundle_id(input) == input
 }
 
 /// Gets the unified ID from an object.
-- 
2.43.0


From 5988d63459e9717ea8ea474af3a05b35ef3de22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:45 +0000
Subject: [PATCH 12/47] fix: report errors when flushing wasm-split output
 files

Dropping the BufWriter discards write errors, so with a full disk
wasm-split left truncated files behind and still exited successfully.
---
 crates/wasm-split/src/main.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index 1402b06..cda876f 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -9,8 +9,8 @@
 
 use clap::Parser;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
-use std::path::PathBuf;
+use std::io::{BufReader, BufWriter, Write};
+use std::path::{Path, PathBuf};
 use uuid::Uuid;
 use wasmbin::sections::{CustomSection, Section};
 use wasmbin::Module;
@@ -69,6 +69,14 @@ fn is_strippable_section(section: &Section, strip_names: bool) -> bool {
     })
 }
 
+/// Writes the module to a file, reporting all errors including those of the final flush.
+fn write_module(module: &Module, path: &Path) -> anyhow::Result<()> {
+    let mut writer = BufWriter::new(File::create(path)?);
+    module.encode_into(&mut writer)?;
+    writer.flush()?;
+    Ok(())
+}
+
 fn main() -> anyhow::Result<()> {
     let cli = Cli::parse();
 
@@ -110,7 +118,7 @@ fn main() -> anyhow::Result<()> {
         // That said, this limitation might actually turn out to be a good thing.
         // On other platforms we also generally require that we get access to
         // the binary for eh_frame and friends.
-        module.encode_into(BufWriter::new(File::create(debug_output)?))?;
+        write_module(&module, debug_output)?;
     }
 
     // do we want to strip debug data from main file?
@@ -146,7 +154,7 @@ fn main() -> anyhow::Result<()> {
     // main module
     if should_write_main_module {
         let output = cli.out.as_ref().unwrap_or(&cli.input);
-        module.encode_into(BufWriter::new(File::create(output)?))?;
+        write_module(&module, output)?;
     }
 
     // always print the build id.
-- 
2.43.0


From 65e378de75c441392cb4fcff8a49407917a9ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:45 +0000
Subject: [PATCH 13/47] fix: always write the output file requested from
 wasm-split

If the module already had a build id and nothing else was to be done,
the file passed with --out was never created.
---
 crates/wasm-split/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index cda876f..853ac17 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -81,7 +81,8 @@ fn main() -> anyhow::Result<()> {
     let cli = Cli::parse();
 
     let mut module = Module::decode_from(BufReader::new(File::open(&cli.input)?))?;
-    let mut should_write_main_module = false;
+    // an explicitly requested output file is always written, even if nothing changes
+    let mut should_write_main_module = cli.out.is_some();
 
     // try to see if we already have a build ID we can use.  If we already have
     // one we do not need to write a new one.
-- 
2.43.0


From 734b00c04b09ef7564cd23dff33c675f6595c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 14/47] fix: do not leave truncated files behind when symsorter
 fails to write

A file that could not be written completely stayed in the output and
was then skipped as a duplicate by every later run.
---
 crates/symsorter/src/app.rs | 41 ++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index 5c6f193..f683e27 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -161,24 +161,33 @@ fn process_file(
             file_format: Some(obj.file_format()),
         };
 
-        fs::write(
-            new_filename.with_extension("meta"),
-            serde_json::to_vec(&meta)?,
-        )?;
-
-        log!(
-            "{} ({}, {}) -> {}",
-            style(&filename).dim(),
-            style(obj.kind()).yellow(),
-            style(obj.arch()).yellow(),
-            style(new_filename.display()).cyan(),
-        );
+        let stored: Result<()> = (|| {
+            fs::write(
+                new_filename.with_extension("meta"),
+                serde_json::to_vec(&meta)?,
+            )?;
+
+            log!(
+                "{} ({}, {}) -> {}",
+                style(&filename).dim(),
+                style(obj.kind()).yellow(),
+                style(obj.arch()).yellow(),
+                style(new_filename.display()).cyan(),
+            );
 
-        if compression_level > 0 {
-            copy_encode(obj.data(), &mut out, compression_level)?;
-        } else {
-            io::copy(&mut obj.data(), &mut out)?;
+            if compression_level > 0 {
+                copy_encode(obj.data(), &mut out, compression_level)?;
+            } else {
+                io::copy(&mut obj.data(), &mut out)?;
+            }
+            Ok(())
+        })();
+        if stored.is_err() {
+            // A truncated file would pass for a duplicate when sorting is retried.
+            let _ = fs::remove_file(&new_filename);
         }
+        stored?;
+
         let unified_id = maybe_ignore_error!(get_unified_id(&obj));
         rv.push((unified_id, obj.kind()));
     }
-- 
2.43.0


From 6cd1e2b885f41a48f25af68bc25a7d3ee3fe0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 15/47] fix: honor --ignore-errors when creating source bundles
 in symsorter

---
 crates/symsorter/src/app.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index f683e27..7696b00 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -289,9 +289,22 @@ fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> Result<(usize, u
             .into_par_iter()
             .filter_map(|(id, path)| Some((id, path?)))
             .map(|(unified_id, path)| -> Result<usize> {
-                let source_bundle = match create_source_bundle(&path, &unified_id)? {
-                    Some(source_bundle) => source_bundle,
-                    None => return Ok(0),
+                let source_bundle = match create_source_bundle(&path, &unified_id) {
+                    Ok(Some(source_bundle)) => source_bundle,
+                    Ok(None) => return Ok(0),
+                    Err(err) if RunConfig::get().ignore_errors => {
+                        eprintln!(
+                            "{}: ignored error {} ({})",
+                            style("error").red().bold(),
+                            err,
+                            style(path.display()).cyan(),
+                        );
+                        return Ok(0);
+                    }
+                    Err(err) => {
+                        return Err(err)
+                            .context(format!("failed to process file {}", path.display()))
+                    }
                 };
 
                 let processed_objects = process_file(
-- 
2.43.0


From 96355db4dd084281ddeabe7a2799f0b574c1c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 16/47] fix: do not panic on cache entries that never expire

With `retry_misses_after` or `retry_malformed_after` set to null, the deadline of a
negative entry was computed as `Instant::now() + Duration::MAX`, which panics.
---
 crates/symbolicator-service/src/caching/fs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index b1776d6..8bf04ad 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -22,6 +22,9 @@ use super::{CacheContents, CacheEntry, CacheError, CacheName, Metadata};
 /// This is being debounced to once every hour to not have to touch them on every single use.
 const TOUCH_EVERY: Duration = Duration::from_secs(3600);
 
+/// How far in the future entries without any limit "expire" from memory.
+const FAR_FUTURE: Duration = Duration::from_secs(100 * 365 * 24 * 3600);
+
 /// Extension for [`Metadata`] files.
 pub(crate) const METADATA_EXTENSION: &str = "metadata";
 
@@ -383,7 +386,9 @@ impl ExpirationTime {
             ExpirationTime::RefreshIn(d) => d,
             ExpirationTime::TouchIn(d) => d,
         };
-        Instant::now() + *duration
+        // An unlimited duration (`Duration::MAX`) cannot be added to an `Instant`.
+        let now = Instant::now();
+        now.checked_add(*duration).unwrap_or(now + FAR_FUTURE)
     }
 }
 
-- 
2.43.0


From 2f0a8d9ef3967a1317244ab9b6ee074582bb25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 17/47] fix: keep broken cache metadata files during a cleanup
 dry run

A dry run is documented not to delete any files.
---
 crates/symbolicator-service/src/caching/cleanup.rs | 2 +-
 crates/symbolicator-service/src/caching/fs.rs      | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/cleanup.rs b/crates/symbolicator-service/src/caching/cleanup.rs
index ebd5d0d..51a48ee 100644
--- a/crates/symbolicator-service/src/caching/cleanup.rs
+++ b/crates/symbolicator-service/src/caching/cleanup.rs
@@ -279,7 +279,7 @@ impl Cache {
         let metadata_size =
             catch_not_found(|| metadata_path.metadata())?.map_or(0, |metadata| metadata.len());
 
-        if catch_not_found(|| self.check_expiry(path))?.is_none() {
+        if catch_not_found(|| self.check_expiry(path, !dry_run))?.is_none() {
             tracing::debug!("Removing file `{}`", path.display());
             if !dry_run {
                 catch_not_found(|| remove_file(path))?;
diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index 8bf04ad..721e948 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -108,9 +108,12 @@ impl Cache {
     /// If cache should not be used, `Err(io::ErrorKind::NotFound)` is returned.
     /// If cache is usable, `Ok(x)` is returned with the opened [`ByteView`], and
     /// an [`ExpirationTime`] that indicates whether the file should be touched before using.
+    ///
+    /// A metadata file that cannot be parsed is removed if `remove_broken_metadata` is set.
     pub(super) fn check_expiry(
         &self,
         path: &Path,
+        remove_broken_metadata: bool,
     ) -> io::Result<(CacheEntry<ByteView<'static>>, ExpirationTime)> {
         let fs_metadata = path.metadata()?;
         tracing::trace!("File `{}` length: {}", path.display(), fs_metadata.len());
@@ -124,7 +127,9 @@ impl Cache {
                     error = &e as &dyn std::error::Error,
                     "Failed to parse cache metadata file",
                 );
-                let _ = std::fs::remove_file(metadata_path(path));
+                if remove_broken_metadata {
+                    let _ = std::fs::remove_file(metadata_path(path));
+                }
                 None
             }
         };
@@ -256,7 +261,7 @@ impl Cache {
         // of those can indicate a cache miss as cache cleanup can run inbetween. Only when we have
         // an open ByteView we can be sure to have a cache hit.
         catch_not_found(|| {
-            let (cache_entry, mut expiration) = self.check_expiry(path)?;
+            let (cache_entry, mut expiration) = self.check_expiry(path, true)?;
 
             let should_touch = matches!(expiration, ExpirationTime::TouchIn(Duration::ZERO));
             if should_touch {
-- 
2.43.0


From 0ed7f3d53b022ac4cf4eb98b51918fb3eddccac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 18/47] fix: keep directories with files that could not be
 cleaned up

If checking a cache file failed, its directory still counted as empty and was
removed together with the file.
---
 crates/symbolicator-service/src/caching/cleanup.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/cleanup.rs b/crates/symbolicator-service/src/caching/cleanup.rs
index 51a48ee..1d469fb 100644
--- a/crates/symbolicator-service/src/caching/cleanup.rs
+++ b/crates/symbolicator-service/src/caching/cleanup.rs
@@ -231,6 +231,8 @@ impl Cache {
                     } else {
                         match self.try_cleanup_path(&path, dry_run) {
                             Err(e) => {
+                                // The file is still there, so its directory has to stay as well.
+                                is_empty = false;
                                 sentry::with_scope(
                                     |scope| {
                                         scope.set_extra("path", path.display().to_string().into())
-- 
2.43.0


From 5add4de0bb412dc09303e822a242fc83f0164365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 19/47] fix: do not remove cache entries written while their
 directory is cleaned up

A directory found empty was removed with everything that had been put there
since.
---
 .../src/caching/cleanup.rs                    | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/cleanup.rs b/crates/symbolicator-service/src/caching/cleanup.rs
index 1d469fb..9cfdead 100644
--- a/crates/symbolicator-service/src/caching/cleanup.rs
+++ b/crates/symbolicator-service/src/caching/cleanup.rs
@@ -1,5 +1,5 @@
 use std::ffi::OsStr;
-use std::fs::{read_dir, remove_dir_all, remove_file};
+use std::fs::{read_dir, remove_dir, remove_file};
 use std::io;
 use std::path::Path;
 
@@ -104,6 +104,21 @@ impl Caches {
     }
 }
 
+/// Removes a directory that holds nothing but leftover metadata files.
+///
+/// This fails if a new cache file has been put there in the meantime.
+fn remove_empty_directory(directory: &Path) -> io::Result<()> {
+    for entry in read_dir(directory)? {
+        let path = entry?.path();
+        if path.extension().and_then(OsStr::to_str) == Some(METADATA_EXTENSION)
+            && !path.with_extension("").exists()
+        {
+            catch_not_found(|| remove_file(&path))?;
+        }
+    }
+    remove_dir(directory)
+}
+
 #[derive(Default)]
 struct CleanupStats {
     removed_dirs: usize,
@@ -203,7 +218,7 @@ impl Cache {
                         if dir_is_empty {
                             tracing::debug!("Removing directory `{}`", directory.display());
                             if !dry_run {
-                                if let Err(e) = remove_dir_all(&path) {
+                                if let Err(e) = remove_empty_directory(&path) {
                                     sentry::with_scope(
                                         |scope| {
                                             scope.set_extra(
-- 
2.43.0


From b0fbfb5fe4de36a736edfd01cd27c96c49a544f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 20/47] fix: write cache metadata files atomically

A process that read a metadata file while it was being written (for example the
cleanup) took it for a broken one and removed it.
---
 crates/symbolicator-service/src/caching/fs.rs     | 8 +++-----
 crates/symbolicator-service/src/caching/memory.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index 721e948..cf94088 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -429,10 +429,8 @@ pub(crate) fn metadata_path(path: impl AsRef<Path>) -> PathBuf {
     out
 }
 
-/// Writes metadata for the cache entry at the given path.
-pub(crate) fn write_metadata(path: impl AsRef<Path>, metadata: &Metadata) -> io::Result<()> {
-    let md_path = metadata_path(path);
-    let mut md_file = File::create(md_path)?;
-    serde_json::to_writer(&mut md_file, metadata)
+/// Writes `metadata` to the given temporary file.
+pub(crate) fn write_metadata(temp_file: &mut NamedTempFile, metadata: &Metadata) -> io::Result<()> {
+    serde_json::to_writer(temp_file, metadata)
         .map_err(|e| io::Error::new(io::ErrorKind::Other, e))
 }
diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 0fda977..a30bd4d 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -378,7 +378,13 @@ impl<T: CacheItemRequest> Cacher<T> {
 
             // Write metadata if we have them
             if let Some(metadata) = metadata.as_ref() {
-                if let Err(e) = super::fs::write_metadata(&cache_path, metadata) {
+                // Like the cache file itself, the metadata file must only become visible once it is
+                // complete: readers remove metadata files they cannot parse.
+                let written = self.config.tempfile().and_then(|mut temp_file| {
+                    super::fs::write_metadata(&mut temp_file, metadata)?;
+                    persist_tempfile(temp_file, &super::fs::metadata_path(&cache_path))
+                });
+                if let Err(e) = written {
                     tracing::error!(
                         error = &e as &dyn std::error::Error,
                         path = %cache_path.display(),
-- 
2.43.0


From 4ddc3e1418a3588fcb1732e3947ef8174ea5f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:22 +0000
Subject: [PATCH 21/47] fix: use retry_misses_after_public for fresh entries
 held in memory

The in-memory deadline of a newly computed negative entry ignored that it belongs to
a public source and kept it for retry_misses_after.
---
 crates/symbolicator-service/src/caching/fs.rs    | 16 ++++++++++++----
 .../symbolicator-service/src/caching/memory.rs   |  8 ++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index cf94088..abd1759 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -358,17 +358,25 @@ pub enum ExpirationTime {
 }
 
 impl ExpirationTime {
-    /// Gives the [`ExpirationTime`] for a freshly created cache with the given [`CacheContents`].
-    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheContents<T>) -> Self {
+    /// Gives the [`ExpirationTime`] for the given freshly created [`CacheEntry`].
+    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheEntry<T>) -> Self {
         let config = &cache.cache_config;
-        let strategy = expiration_strategy(entry);
+        let strategy = expiration_strategy(entry.contents());
         match strategy {
             ExpirationStrategy::None => {
                 // we want to touch good caches once every hour
                 Self::TouchIn(Duration::from_secs(3600))
             }
             ExpirationStrategy::Negative => {
-                let retry_misses_after = config.retry_misses_after().unwrap_or(Duration::MAX);
+                let is_public = entry
+                    .metadata()
+                    .is_some_and(|md| md.scope == Scope::Global);
+                let retry_misses_after = if is_public {
+                    config.retry_misses_after_public()
+                } else {
+                    config.retry_misses_after()
+                }
+                .unwrap_or(Duration::MAX);
 
                 Self::RefreshIn(retry_misses_after)
             }
diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index a30bd4d..f138f72 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -446,10 +446,10 @@ impl<T: CacheItemRequest> Cacher<T> {
                     Err(CacheError::NotFound) => continue,
                     Err(err) => {
                         let contents = Err(err);
-                        let deadline =
-                            ExpirationTime::for_fresh_status(&self.config, &contents).as_instant();
                         let metadata = Some(Metadata::from_key(cache_key));
                         let data = CacheEntry { metadata, contents };
+                        let deadline =
+                            ExpirationTime::for_fresh_status(&self.config, &data).as_instant();
                         return Some(InMemoryItem { deadline, data });
                     }
                     Ok((item, needs_reupload)) => {
@@ -539,7 +539,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             .await;
 
         // we just created a fresh cache, so use the initial expiration times
-        let expiration = ExpirationTime::for_fresh_status(&self.config, data.contents());
+        let expiration = ExpirationTime::for_fresh_status(&self.config, &data);
 
         InMemoryItem {
             deadline: expiration.as_instant(),
@@ -598,7 +598,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             let data = this.compute(request, &cache_key, true).await;
 
             // we just created a fresh cache, so use the initial expiration times
-            let expiration = ExpirationTime::for_fresh_status(&this.config, data.contents());
+            let expiration = ExpirationTime::for_fresh_status(&this.config, &data);
             let value = InMemoryItem {
                 deadline: expiration.as_instant(),
                 data,
-- 
2.43.0


From bbc2beb23a91b71ea0b68c23cdba3bd45e5f420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 22/47] fix: reject range responses which are not the requested
 part of a file

---
 .../symbolicator-service/src/download/mod.rs  | 93 ++++++++++++++++++-
 .../src/download/partial.rs                   | 13 ++-
 2 files changed, 100 insertions(+), 6 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index f928bf5..8b89209 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -662,6 +662,18 @@ async fn do_download_reqwest_range(
             let destination = std::pin::pin!(destination.into_write());
             do_download_reqwest(request, destination).await
         }
+        // The range is well-formed, but it is not the beginning of the resource we asked for.
+        Some(Ok(content_range)) if !content_range.is_initial() => {
+            tracing::error!(
+                source_name = request.source_name,
+                source = source,
+                "server returned an unexpected initial range: {content_range}"
+            );
+            drop(response);
+
+            let destination = std::pin::pin!(destination.into_write());
+            do_download_reqwest(request, destination).await
+        }
         // Server indicates it supports ranges.
         Some(Ok(content_range)) => {
             tracing::trace!(
@@ -685,11 +697,22 @@ async fn do_download_reqwest_range(
                 return Ok(());
             }
 
+            // There is nothing left to request. The body may be decompressed on the fly, in which
+            // case its size is unrelated to the size of the range.
+            if content_range.end + 1 == content_range.total_size {
+                request.measure.set_streams(1);
+                let destination = std::pin::pin!(destination.into_write());
+                return response.download(destination).await;
+            }
+
             destination.set_size(content_range.total_size).await?;
 
             let mut futures = FuturesUnordered::new();
 
-            let head = response.download(destination.stream(0, content_range.range().size()));
+            let head = response.download_range(
+                content_range,
+                destination.stream(0, content_range.range().size()),
+            );
             futures.push(Either::Left(head.send()));
 
             for range in partial::split(content_range) {
@@ -699,7 +722,12 @@ async fn do_download_reqwest_range(
                     .with_range(range);
 
                 let destination = destination.stream(range.start, range.size());
-                let partial = do_download_reqwest(request, destination).send();
+                let expected = BytesContentRange {
+                    start: range.start,
+                    end: range.end,
+                    total_size: content_range.total_size,
+                };
+                let partial = do_download_reqwest_part(request, expected, destination).send();
                 futures.push(Either::Right(partial));
             }
 
@@ -732,6 +760,33 @@ async fn do_download_reqwest(
     }
 }
 
+/// Downloads one part of a resource into the `destination`.
+///
+/// The server must reply with exactly the `expected` range, any other successful response can not
+/// be combined with the other parts of the resource.
+async fn do_download_reqwest_part(
+    request: SymRequest<'_>,
+    expected: BytesContentRange,
+    destination: impl WriteStream,
+) -> CacheContents {
+    let source = request.to_source();
+    let response = request.execute().await?;
+
+    let status = response.status();
+    match response.content_range() {
+        Some(Ok(content_range)) if content_range == expected => {
+            response.download_range(expected, destination).await
+        }
+        _ if status.is_success() => {
+            tracing::error!("Unexpected response for range {expected} from `{source}`");
+            Err(CacheError::DownloadError(
+                "server returned an unexpected range".into(),
+            ))
+        }
+        _ => Err(status_to_error(&source, status)),
+    }
+}
+
 /// Converts a status code to an error.
 ///
 /// Any status code will be converted to an error, callers must ensure success cases
@@ -859,8 +914,28 @@ impl SymResponse<'_> {
         partial::BytesContentRange::from_response(&self.response)
     }
 
+    /// Downloads the part of the resource described by `range` into `destination`.
+    ///
+    /// Fails if the response does not contain exactly as many bytes as the range.
+    async fn download_range(
+        self,
+        range: BytesContentRange,
+        destination: impl WriteStream,
+    ) -> CacheContents {
+        self.download_inner(Some(range.range().size()), destination)
+            .await
+    }
+
     /// Downloads the resource into `destination`, applying timeouts.
-    async fn download(self, mut destination: impl WriteStream) -> CacheContents {
+    async fn download(self, destination: impl WriteStream) -> CacheContents {
+        self.download_inner(None, destination).await
+    }
+
+    async fn download_inner(
+        self,
+        expected_size: Option<u64>,
+        mut destination: impl WriteStream,
+    ) -> CacheContents {
         // Use the content range, if available for a timeout, we're really just interested in
         // limiting the total time, not the time of individual requests.
         let timeout = BytesContentRange::from_response(&self.response)
@@ -873,12 +948,22 @@ impl SymResponse<'_> {
         let mut stream = self.response.bytes_stream().map_err(CacheError::from);
         // Transfer the contents, into the destination and track progress.
         tokio::time::timeout(timeout, async move {
+            let mut received = 0;
             while let Some(chunk) = stream.next().await.transpose()? {
+                received += chunk.len() as u64;
+                if expected_size.is_some_and(|expected| received > expected) {
+                    break;
+                }
                 self.measure.add_bytes_transferred(chunk.len() as u64);
                 destination.write_buf(chunk).await?;
             }
 
-            Ok(())
+            match expected_size {
+                Some(expected) if received != expected => Err(CacheError::DownloadError(
+                    "server returned an unexpected amount of data".into(),
+                )),
+                _ => Ok(()),
+            }
         })
         .await
         .map_err(|_| CacheError::Timeout(timeout))?
diff --git a/crates/symbolicator-service/src/download/partial.rs b/crates/symbolicator-service/src/download/partial.rs
index 798006d..c3418fb 100644
--- a/crates/symbolicator-service/src/download/partial.rs
+++ b/crates/symbolicator-service/src/download/partial.rs
@@ -134,6 +134,12 @@ impl BytesContentRange {
         }
     }
 
+    /// Returns `true` if the range is a valid reply to a request for [`initial_range`].
+    pub fn is_initial(self) -> bool {
+        // An empty resource is described as `0-0/0` by some servers.
+        self.start == 0 && (self.end < self.total_size || self.total_size == 0)
+    }
+
     /// Parses a [`BytesContentRange`] from a [`reqwest::Response`].
     ///
     /// Returns `None` if the response is not a partial response.
@@ -142,11 +148,14 @@ impl BytesContentRange {
             return None;
         }
 
-        response
+        let content_range = response
             .headers()
             .get(reqwest::header::CONTENT_RANGE)
             .and_then(|hv| hv.to_str().ok())
-            .map(|s| s.parse())
+            .ok_or(InvalidBytesRange::Malformed)
+            .and_then(|s| s.parse());
+
+        Some(content_range)
     }
 }
 
-- 
2.43.0


From 3887a6dc23815ace90ab39b1a9492938d2871051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 23/47] fix: write whole chunks in WriteStream::write_buf

---
 crates/symbolicator-service/src/download/destination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/destination.rs b/crates/symbolicator-service/src/download/destination.rs
index 4c9bee9..8ab4013 100644
--- a/crates/symbolicator-service/src/download/destination.rs
+++ b/crates/symbolicator-service/src/download/destination.rs
@@ -24,7 +24,7 @@ where
     T: AsyncWrite + Unpin + Send,
 {
     async fn write_buf(&mut self, mut buf: Bytes) -> io::Result<()> {
-        AsyncWriteExt::write_buf(self, &mut buf).await.map(|_| ())
+        AsyncWriteExt::write_all_buf(self, &mut buf).await
     }
 }
 
-- 
2.43.0


From e4f70a5ed57853f9d2059230a43131c9759a9910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 24/47] fix: report errors of the last write of a download

---
 crates/symbolicator-service/src/download/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 8b89209..a580bb5 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -313,8 +313,10 @@ impl DownloadService {
                     self.fs.download_source(source, &mut destination).await
                 }
             };
-            let _ = destination.flush().await;
-            result
+            let flushed = destination.flush().await;
+            result?;
+            // The last write only reports its errors when it is flushed.
+            Ok(flushed?)
         })
         .await;
 
-- 
2.43.0


From e395dacb6c4a842aaee7426eba2b29d2af6c707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 25/47] fix: do not take the path of allowed origins for part
 of their port

---
 crates/symbolicator-service/src/utils/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/utils/http.rs b/crates/symbolicator-service/src/utils/http.rs
index 371e6ba..1f05900 100644
--- a/crates/symbolicator-service/src/utils/http.rs
+++ b/crates/symbolicator-service/src/utils/http.rs
@@ -149,7 +149,7 @@ impl AllowedOriginPattern {
         let (scheme, rest) = value.split_once("://").unwrap_or(("*", value));
         let (domain, path) = rest.split_once('/').unwrap_or((rest, "*"));
 
-        let (domain, port) = match rest.split_once(':') {
+        let (domain, port) = match domain.split_once(':') {
             Some((d, p)) => (d, Some(p)),
             None => (domain, None),
         };
-- 
2.43.0


From 9449c0b5966b680f9bc734f0c98785df3f396718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 26/47] fix: match the path of allowed origins without its
 leading slash

---
 crates/symbolicator-service/src/utils/http.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/utils/http.rs b/crates/symbolicator-service/src/utils/http.rs
index 1f05900..fcbb353 100644
--- a/crates/symbolicator-service/src/utils/http.rs
+++ b/crates/symbolicator-service/src/utils/http.rs
@@ -237,7 +237,10 @@ pub fn is_valid_origin(origin: &Url, allowed: &[String]) -> bool {
             return true;
         }
         let path = path.strip_suffix('*').unwrap_or(&path);
-        if origin.path().starts_with(path) {
+        // The leading slash is not part of the pattern's path.
+        let origin_path = origin.path();
+        let origin_path = origin_path.strip_prefix('/').unwrap_or(origin_path);
+        if origin_path.starts_with(path) {
             return true;
         }
     }
-- 
2.43.0


From 56efc5aef1a2a5ed6b4820b551a50d3ba00381d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 27/47] fix: complete the list of reserved IPv4 blocks

---
 crates/symbolicator-service/src/utils/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/utils/http.rs b/crates/symbolicator-service/src/utils/http.rs
index fcbb353..6964e94 100644
--- a/crates/symbolicator-service/src/utils/http.rs
+++ b/crates/symbolicator-service/src/utils/http.rs
@@ -17,12 +17,13 @@ static RESERVED_IP_BLOCKS: Lazy<Vec<Ipv4Network>> = Lazy::new(|| {
         "127.0.0.0/8",
         "169.254.0.0/16",
         "172.16.0.0/12",
-        "192.0.0.0/29",
+        "192.0.0.0/24",
         "192.0.2.0/24",
         "192.88.99.0/24",
         "192.168.0.0/16",
         "198.18.0.0/15",
         "198.51.100.0/24",
+        "203.0.113.0/24",
         "224.0.0.0/4",
         "240.0.0.0/4",
         "255.255.255.255/32",
-- 
2.43.0


From 8ebc99a2fa061dda602ded48fcd05c814b12a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 28/47] fix: unusual deny list windows and bucket sizes no
 longer panic

---
 crates/symbolicator-service/src/download/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index a580bb5..75cec3a 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -129,7 +129,8 @@ impl HostDenyList {
     /// Creates an empty [`HostDenyList`].
     fn from_config(config: &Config) -> Self {
         let time_window_millis = config.deny_list_time_window.as_millis() as u64;
-        let bucket_size_millis = config.deny_list_bucket_size.as_millis() as u64;
+        // A bucket cannot be smaller than the resolution of its timestamps.
+        let bucket_size_millis = (config.deny_list_bucket_size.as_millis() as u64).max(1);
         Self {
             time_window_millis,
             bucket_size_millis,
@@ -196,7 +197,7 @@ impl HostDenyList {
             queue.pop_front();
         }
 
-        let cutoff = current_ts - self.time_window_millis;
+        let cutoff = current_ts.saturating_sub(self.time_window_millis);
         let total_failures: usize = queue
             .iter()
             .skip_while(|failure_count| failure_count.timestamp < cutoff)
-- 
2.43.0


From 11f88762e9464730166d152eb8f10a19bba6a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 29/47] fix: report failed downloads of Symstore index segments

---
 crates/symbolicator-service/src/download/index.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 38afbac..56a2ad4 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -179,7 +179,8 @@ async fn download_index_segment(
             source_id = %source.id(),
             segment,
             "Failed to download Symstore index segment",
-        )
+        );
+        return Err(e);
     }
 
     let buf = BufReader::new(temp_file);
-- 
2.43.0


From 4dafa618092e1aa44f3821c23789ddc0e3a9461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 30/47] fix: report truncated zlib streams as malformed

---
 .../src/download/compression.rs               | 42 +++++++++++++++++--
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-service/src/download/compression.rs b/crates/symbolicator-service/src/download/compression.rs
index 6ad85a4..4f52269 100644
--- a/crates/symbolicator-service/src/download/compression.rs
+++ b/crates/symbolicator-service/src/download/compression.rs
@@ -1,7 +1,8 @@
-use std::io::{self, Read, Seek};
+use std::io::{self, BufRead, BufReader, Read, Seek, Write};
 use std::process::{Command, Stdio};
 
-use flate2::read::{MultiGzDecoder, ZlibDecoder};
+use flate2::read::MultiGzDecoder;
+use flate2::{Decompress, FlushDecompress, Status};
 use tempfile::NamedTempFile;
 
 /// Decompresses a downloaded file.
@@ -68,8 +69,7 @@ pub fn maybe_decompress_file(src: &mut NamedTempFile) -> io::Result<()> {
             metric!(counter("compression") += 1, "type" => "zlib");
 
             let mut dst = tempfile_in_parent(src)?;
-            let mut reader = ZlibDecoder::new(file);
-            io::copy(&mut reader, &mut dst)?;
+            decompress_zlib(BufReader::new(file), &mut dst)?;
 
             std::mem::swap(src, &mut dst);
         }
@@ -128,6 +128,40 @@ pub fn maybe_decompress_file(src: &mut NamedTempFile) -> io::Result<()> {
     Ok(())
 }
 
+/// Decompresses the zlib stream in `src` to `dst`.
+///
+/// In contrast to [`flate2::read::ZlibDecoder`], this returns an error if `src` ends before the
+/// end of the zlib stream.
+fn decompress_zlib(mut src: impl BufRead, mut dst: impl Write) -> io::Result<()> {
+    let mut decoder = Decompress::new(true);
+    let mut buf = vec![0; 64 * 1024];
+
+    loop {
+        let input = src.fill_buf()?;
+        let eof = input.is_empty();
+        let flush = if eof {
+            FlushDecompress::Finish
+        } else {
+            FlushDecompress::None
+        };
+
+        let (before_in, before_out) = (decoder.total_in(), decoder.total_out());
+        let status = decoder.decompress(input, &mut buf, flush)?;
+        let consumed = (decoder.total_in() - before_in) as usize;
+        let written = (decoder.total_out() - before_out) as usize;
+
+        src.consume(consumed);
+        dst.write_all(&buf[..written])?;
+
+        if status == Status::StreamEnd {
+            return Ok(());
+        }
+        if eof && written == 0 {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+    }
+}
+
 // FIXME(swatinem): this fn needs a better place
 pub fn tempfile_in_parent(file: &NamedTempFile) -> io::Result<NamedTempFile> {
     let dir = file
-- 
2.43.0


From 61fed8fbb1c527e4cd28742b9f050a2942d65454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:07 +0000
Subject: [PATCH 31/47] fix: keep empty Symstore index segments apart from
 missing ones

---
 crates/symbolicator-sources/src/index.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/index.rs b/crates/symbolicator-sources/src/index.rs
index 264cf66..c6f994b 100644
--- a/crates/symbolicator-sources/src/index.rs
+++ b/crates/symbolicator-sources/src/index.rs
@@ -67,7 +67,10 @@ impl SymstoreIndex {
         let mut out = Self::default();
         let reader = BufReader::new(data);
         for line in reader.lines() {
-            out.files.insert(line?.into());
+            let line = line?;
+            if !line.is_empty() {
+                out.files.insert(line.into());
+            }
         }
         Ok(out)
     }
@@ -99,7 +102,14 @@ impl SymstoreIndex {
     }
 
     /// Writes this index to a writer.
+    ///
+    /// An empty index is written as one empty line, because an empty cache file
+    /// stands for a missing item.
     pub fn write(&self, mut destination: impl Write) -> io::Result<()> {
+        if self.files.is_empty() {
+            writeln!(destination)?;
+        }
+
         for line in &self.files {
             writeln!(destination, "{line}")?;
         }
-- 
2.43.0


From 3b868a3be35def9c43e6ad30ce09709b74e6b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 32/47] fix: do not share indexes of private sources between
 scopes

---
 .../symbolicator-native/src/caches/bitcode.rs |  3 ++-
 .../symbolicator-native/src/caches/il2cpp.rs  |  3 ++-
 crates/symbolicator-proguard/src/service.rs   |  3 ++-
 .../src/download/index.rs                     | 16 ++++++++++++
 .../symbolicator-service/src/download/mod.rs  | 26 ++++++++++++++++++-
 .../symbolicator-service/src/objects/mod.rs   |  3 ++-
 6 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/crates/symbolicator-native/src/caches/bitcode.rs b/crates/symbolicator-native/src/caches/bitcode.rs
index 1117c13..ba8e748 100644
--- a/crates/symbolicator-native/src/caches/bitcode.rs
+++ b/crates/symbolicator-native/src/caches/bitcode.rs
@@ -206,12 +206,13 @@ impl BitcodeService {
             AuxDifKind::BcSymbolMap => &[FileType::BcSymbolMap],
             AuxDifKind::UuidMap => &[FileType::UuidMap],
         };
-        let files = download::list_files(
+        let files = download::list_files_in_scope(
             &self.download_svc,
             &self.source_index_svc,
             &sources,
             file_type,
             &uuid.into(),
+            &scope,
         )
         .await;
 
diff --git a/crates/symbolicator-native/src/caches/il2cpp.rs b/crates/symbolicator-native/src/caches/il2cpp.rs
index 6aa97dc..115a50c 100644
--- a/crates/symbolicator-native/src/caches/il2cpp.rs
+++ b/crates/symbolicator-native/src/caches/il2cpp.rs
@@ -125,12 +125,13 @@ impl Il2cppService {
         scope: Scope,
         sources: Arc<[SourceConfig]>,
     ) -> Option<Il2cppHandle> {
-        let files = download::list_files(
+        let files = download::list_files_in_scope(
             &self.download_svc,
             &self.source_index_svc,
             &sources,
             &[FileType::Il2cpp],
             object_id,
+            &scope,
         )
         .await;
 
diff --git a/crates/symbolicator-proguard/src/service.rs b/crates/symbolicator-proguard/src/service.rs
index 2be91a9..445c58f 100644
--- a/crates/symbolicator-proguard/src/service.rs
+++ b/crates/symbolicator-proguard/src/service.rs
@@ -60,12 +60,13 @@ impl ProguardService {
             ..Default::default()
         };
 
-        let file = download::list_files(
+        let file = download::list_files_in_scope(
             &self.download_svc,
             &self.source_index_svc,
             sources,
             &[FileType::Proguard],
             &identifier,
+            scope,
         )
         .await
         .into_iter()
diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 56a2ad4..7d9de9b 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -74,6 +74,15 @@ impl IndexSourceConfig {
         }
     }
 
+    fn is_public(&self) -> bool {
+        match self {
+            IndexSourceConfig::Filesystem(fs) => fs.files.is_public,
+            IndexSourceConfig::Gcs(gcs) => gcs.files.is_public,
+            IndexSourceConfig::Http(http) => http.files.is_public,
+            IndexSourceConfig::S3(s3) => s3.files.is_public,
+        }
+    }
+
     fn layout_ty(&self) -> DirectoryLayoutType {
         match self {
             IndexSourceConfig::Filesystem(fs) => fs.files.layout.ty,
@@ -515,6 +524,13 @@ impl SourceIndexService {
             return None;
         }
 
+        // The indexes of public sources are shared between all scopes.
+        let scope = if source.is_public() {
+            Scope::Global
+        } else {
+            scope
+        };
+
         match source.layout_ty() {
             symbolicator_sources::DirectoryLayoutType::Symstore => {
                 let symstore_index = self
diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 75cec3a..8be71d2 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -430,12 +430,36 @@ impl DownloadService {
 /// Note that the `filetypes` argument is not more then a hint, not all source types
 /// will respect this and they may return all DIFs matching the `object_id`.  After
 /// downloading you may still need to filter the files.
+///
+/// Source indexes are shared between all scopes. Use [`list_files_in_scope`] for sources which are
+/// not public.
 pub async fn list_files(
     downloader: &DownloadService,
     source_index_svc: &SourceIndexService,
     sources: &[SourceConfig],
     filetypes: &[FileType],
     object_id: &ObjectId,
+) -> Vec<RemoteFile> {
+    list_files_in_scope(
+        downloader,
+        source_index_svc,
+        sources,
+        filetypes,
+        object_id,
+        &Scope::Global,
+    )
+    .await
+}
+
+/// Like [`list_files`], but the indexes of sources which are not public are only shared between
+/// requests of the same scope.
+pub async fn list_files_in_scope(
+    downloader: &DownloadService,
+    source_index_svc: &SourceIndexService,
+    sources: &[SourceConfig],
+    filetypes: &[FileType],
+    object_id: &ObjectId,
+    scope: &Scope,
 ) -> Vec<RemoteFile> {
     let mut remote_files = vec![];
 
@@ -452,7 +476,7 @@ pub async fn list_files(
     }
 
     for source in sources {
-        let index = source_index_svc.fetch_index(Scope::Global, source).await;
+        let index = source_index_svc.fetch_index(scope.clone(), source).await;
         match source {
             SourceConfig::Sentry(cfg) => {
                 let future = downloader
diff --git a/crates/symbolicator-service/src/objects/mod.rs b/crates/symbolicator-service/src/objects/mod.rs
index 6805bd0..0fd827e 100644
--- a/crates/symbolicator-service/src/objects/mod.rs
+++ b/crates/symbolicator-service/src/objects/mod.rs
@@ -144,12 +144,13 @@ impl ObjectsActor {
             sources,
             purpose,
         } = request;
-        let file_ids = download::list_files(
+        let file_ids = download::list_files_in_scope(
             &self.download_svc,
             &self.source_index_svc,
             &sources,
             filetypes,
             &identifier,
+            &scope,
         )
         .await;
 
-- 
2.43.0


From aaab47eb1a07f6b0dbd15158038c749eca1753cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 33/47] fix: compute items into a fresh file after a failed
 fetch from the shared cache

A fetch that broke off left its bytes in the temporary file (one that timed out
may still be writing to it), and a shorter computed result was stored with the
rest of those bytes behind it.
---
 crates/symbolicator-service/src/caching/memory.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index f138f72..1b60f2a 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -270,6 +270,14 @@ impl<T: CacheItemRequest> Cacher<T> {
         let entry = match entry {
             Some(entry) => entry,
             None => {
+                // A failed fetch may have left, or may still be writing, part of an entry.
+                if self.shared_cache(&request).is_some() {
+                    temp_file = match self.config.tempfile() {
+                        Ok(temp_file) => temp_file,
+                        Err(e) => return CacheEntry::from_err(e),
+                    };
+                }
+
                 metric!(counter("caches.computation") += 1, "cache" => name.as_ref());
                 match request.compute(&mut temp_file).await {
                     Ok(()) => {
-- 
2.43.0


From d3b2251b3602ea47d54aedd6ea8eb77d060daac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:43 +0000
Subject: [PATCH 34/47] fix: report proguard files that cannot be decompressed
 instead of panicking

---
 crates/symbolicator-proguard/src/symbolication.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-proguard/src/symbolication.rs b/crates/symbolicator-proguard/src/symbolication.rs
index 49c43de..ce29a8b 100644
--- a/crates/symbolicator-proguard/src/symbolication.rs
+++ b/crates/symbolicator-proguard/src/symbolication.rs
@@ -65,11 +65,11 @@ impl ProguardService {
                     }
                     let kind = match e {
                         CacheError::Malformed(msg) => match msg.as_str() {
-                            "The file is not a valid ProGuard file" => ProguardErrorKind::Invalid,
                             "The ProGuard file doesn't contain any line mappings" => {
                                 ProguardErrorKind::NoLineInfo
                             }
-                            _ => unreachable!(),
+                            // Not a ProGuard file at all, or one that could not be decompressed.
+                            _ => ProguardErrorKind::Invalid,
                         },
                         _ => ProguardErrorKind::Missing,
                     };
-- 
2.43.0


From 1e10c78590fffc048c219e5b1ad0458abf6d149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 35/47] fix: keep the trailing slash of URLs that are
 downloaded as they are

Files created with HttpRemoteFile::from_url have an empty location; joining
it to the URL removed the trailing slash, so another resource was requested.
---
 crates/symbolicator-sources/src/sources/http.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/symbolicator-sources/src/sources/http.rs b/crates/symbolicator-sources/src/sources/http.rs
index f347509..ab57313 100644
--- a/crates/symbolicator-sources/src/sources/http.rs
+++ b/crates/symbolicator-sources/src/sources/http.rs
@@ -82,6 +82,10 @@ impl HttpRemoteFile {
 
     /// Returns the URL from which to download this object file.
     pub fn url(&self) -> anyhow::Result<Url> {
+        if self.location.segments().next().is_none() {
+            // The URL was given as a whole, it must be used as it is.
+            return Ok(self.source.url.clone());
+        }
         self.location.to_url(&self.source.url)
     }
 
-- 
2.43.0


From 4afd0996420d2a56dba3c1097b7883f70f703707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 36/47] fix: treat empty items the same when computed and when
 read from the cache

An empty file in the cache stands for `NotFound`. The request that computed
an empty item got it as contents, later requests got `NotFound`.
---
 crates/symbolicator-service/src/caching/memory.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 1b60f2a..0985165 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -287,8 +287,14 @@ impl<T: CacheItemRequest> Cacher<T> {
                             Ok(bv) => bv,
                             Err(e) => return CacheEntry::from_err(e),
                         };
+                        // An empty file on disk means `NotFound`, so it has to mean the same here.
+                        let contents = if byte_view.is_empty() {
+                            Err(CacheError::NotFound)
+                        } else {
+                            Ok(byte_view)
+                        };
                         CacheEntry {
-                            contents: Ok(byte_view),
+                            contents,
                             metadata: Some(Metadata::from_key(key)),
                         }
                     }
-- 
2.43.0


From 22a763adc2a979f0bcd7998018d5840451bd61df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 37/47] fix: do not share files in artifact bundles between
 scopes

Bundle URIs (`sentry://project_debug_file/ID`) are only unique within a scope,
and bundles an event failed to load were still consulted in the cache of
files in bundles. Events could be given files of other projects.
---
 crates/symbolicator-js/src/bundle_lookup.rs | 18 +++++++++++-------
 crates/symbolicator-js/src/lookup.rs        | 15 ++++++++++++---
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/symbolicator-js/src/bundle_lookup.rs b/crates/symbolicator-js/src/bundle_lookup.rs
index db59c7e..dd55107 100644
--- a/crates/symbolicator-js/src/bundle_lookup.rs
+++ b/crates/symbolicator-js/src/bundle_lookup.rs
@@ -2,13 +2,14 @@ use std::fmt;
 use std::time::Duration;
 
 use symbolicator_service::metric;
+use symbolicator_service::types::Scope;
 use symbolicator_sources::RemoteFileUri;
 
 use crate::interface::ResolvedWith;
 use crate::lookup::{CachedFileEntry, FileKey};
 
 type FileInBundleCacheInner =
-    moka::sync::Cache<(RemoteFileUri, FileKey), (CachedFileEntry, ResolvedWith)>;
+    moka::sync::Cache<(Scope, RemoteFileUri, FileKey), (CachedFileEntry, ResolvedWith)>;
 
 /// A cache that memoizes looking up files in artifact bundles.
 #[derive(Clone)]
@@ -48,33 +49,36 @@ impl FileInBundleCache {
 
     /// Tries to retrieve a file from the cache.
     ///
-    /// We look for the file under `(bundle_uri, key)` for `bundle_uri` in `bundle_uris`.
+    /// We look for the file under `(scope, bundle_uri, key)` for `bundle_uri` in `bundle_uris`.
+    /// The URIs are only unique within a scope.
     /// Retrieval is limited to a specific list of bundles so that e.g. files with the same
     /// `abs_path` belonging to different events are disambiguated.
     pub fn try_get(
         &self,
+        scope: &Scope,
         bundle_uris: impl Iterator<Item = RemoteFileUri>,
         mut key: FileKey,
     ) -> Option<(RemoteFileUri, CachedFileEntry, ResolvedWith)> {
         for bundle_uri in bundle_uris {
             // XXX: this is a really horrible workaround for not being able to look up things via `(&A, &B)` instead of `&(A, B)`.
-            let lookup_key = (bundle_uri, key);
+            let lookup_key = (scope.clone(), bundle_uri, key);
             if let Some((file_entry, resolved_with)) = self.cache.get(&lookup_key) {
                 metric!(counter("js.file_in_bundle.hit") += 1);
-                return Some((lookup_key.0, file_entry, resolved_with));
+                return Some((lookup_key.1, file_entry, resolved_with));
             }
-            key = lookup_key.1;
+            key = lookup_key.2;
         }
         metric!(counter("js.file_in_bundle.miss") += 1);
         None
     }
 
-    /// Inserts `file_entry` into the cache under `(bundle_uri, key)`.
+    /// Inserts `file_entry` into the cache under `(scope, bundle_uri, key)`.
     ///
     /// Files are inserted under a specific bundle so that e.g. files with the same
     /// `abs_path` belonging to different events are disambiguated.
     pub fn insert(
         &self,
+        scope: &Scope,
         bundle_uri: &RemoteFileUri,
         key: &FileKey,
         resolved_with: ResolvedWith,
@@ -89,7 +93,7 @@ impl FileInBundleCache {
                 cached_file.contents = None;
             }
         }
-        let key = (bundle_uri.clone(), key.clone());
+        let key = (scope.clone(), bundle_uri.clone(), key.clone());
         self.cache.insert(key, (file_entry, resolved_with))
     }
 }
diff --git a/crates/symbolicator-js/src/lookup.rs b/crates/symbolicator-js/src/lookup.rs
index 6782452..e2a1022 100644
--- a/crates/symbolicator-js/src/lookup.rs
+++ b/crates/symbolicator-js/src/lookup.rs
@@ -841,9 +841,16 @@ impl ArtifactFetcher {
         }
 
         // First see if we have already cached this file for any of this event's bundles.
-        if let Some((bundle_uri, file_entry, resolved_with)) = self
-            .files_in_bundles
-            .try_get(self.artifact_bundles.keys().rev().cloned(), key.clone())
+        // Bundles that could not be loaded for this event must not provide any files.
+        let bundle_uris = self
+            .artifact_bundles
+            .iter()
+            .rev()
+            .filter(|(_, bundle)| bundle.is_ok())
+            .map(|(uri, _)| uri.clone());
+        if let Some((bundle_uri, file_entry, resolved_with)) =
+            self.files_in_bundles
+                .try_get(&self.scope, bundle_uris, key.clone())
         {
             // we would like to gather metrics for which method we used to resolve the artifact bundle
             // containing the file. we should also be doing so if we got the file from the cache.
@@ -881,6 +888,7 @@ impl ArtifactFetcher {
                         resolved_with: ResolvedWith::DebugId,
                     };
                     self.files_in_bundles.insert(
+                        &self.scope,
                         bundle_uri,
                         key,
                         ResolvedWith::DebugId,
@@ -913,6 +921,7 @@ impl ArtifactFetcher {
                             resolved_with: *resolved_with,
                         };
                         self.files_in_bundles.insert(
+                            &self.scope,
                             bundle_uri,
                             key,
                             ResolvedWith::Url,
-- 
2.43.0


From 60c91a1a26332322a31e44981c59ea4e9dadf9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 38/47] fix: only skip module path segments that really are
 hashes

Any segment of 32 characters was taken for a hash, no matter which
characters it had.
---
 crates/symbolicator-js/src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-js/src/utils.rs b/crates/symbolicator-js/src/utils.rs
index 411454a..0a80bf4 100644
--- a/crates/symbolicator-js/src/utils.rs
+++ b/crates/symbolicator-js/src/utils.rs
@@ -149,8 +149,8 @@ pub fn generate_module(abs_path: &str) -> String {
     // return all the segments following a 32/40-char hash
     let mut segments = path.split('/');
     while let Some(segment) = segments.next() {
-        if segment.len() == 32
-            || segment.len() == 40 && segment.chars().all(|c| c.is_ascii_hexdigit())
+        if (segment.len() == 32 || segment.len() == 40)
+            && segment.chars().all(|c| c.is_ascii_hexdigit())
         {
             let mut s = String::new();
             for (i, seg) in segments.enumerate() {
-- 
2.43.0


From 88a558a24660ae70338a8eb6102bbbddb7b830fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 39/47] fix: do not panic when logging files with multi-byte
 characters

---
 crates/symbolicator-js/src/lookup.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-js/src/lookup.rs b/crates/symbolicator-js/src/lookup.rs
index e2a1022..c909964 100644
--- a/crates/symbolicator-js/src/lookup.rs
+++ b/crates/symbolicator-js/src/lookup.rs
@@ -443,7 +443,11 @@ impl fmt::Debug for CachedFile {
         let contents = if contents.len() > 64 {
             // its just `Debug` prints, but we would like the end of the file, as it may
             // have a `sourceMappingURL`
-            format!("...{}", &contents[contents.len() - 61..])
+            let mut start = contents.len() - 61;
+            while !contents.is_char_boundary(start) {
+                start += 1;
+            }
+            format!("...{}", &contents[start..])
         } else {
             contents.to_string()
         };
-- 
2.43.0


From b9231e5f76a70b28ca0c065688ea764a005e38d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 40/47] fix: do not truncate the function id and IL offset of
 .NET frames

---
 crates/symbolicator-native/src/symbolication/dotnet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-native/src/symbolication/dotnet.rs b/crates/symbolicator-native/src/symbolication/dotnet.rs
index 5005961..5dc6579 100644
--- a/crates/symbolicator-native/src/symbolication/dotnet.rs
+++ b/crates/symbolicator-native/src/symbolication/dotnet.rs
@@ -9,8 +9,10 @@ pub fn symbolicate_dotnet_frame(
     index: usize,
 ) -> Result<Vec<SymbolicatedFrame>, FrameStatus> {
     // TODO: Add a new error variant for this?
-    let function_idx = frame.function_id.ok_or(FrameStatus::MissingSymbol)?.0 as u32;
-    let il_offset = frame.instruction_addr.0 as u32;
+    let function_id = frame.function_id.ok_or(FrameStatus::MissingSymbol)?.0;
+    let function_idx = u32::try_from(function_id).map_err(|_| FrameStatus::MissingSymbol)?;
+    let il_offset =
+        u32::try_from(frame.instruction_addr.0).map_err(|_| FrameStatus::MissingSymbol)?;
 
     let line_info = ppdbcache
         .lookup(function_idx, il_offset)
-- 
2.43.0


From 7638da5a0e4c5a39191f2c9a8305bb6d9648acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 41/47] fix: add the candidate of a source link to the module
 it belongs to

---
 .../symbolicator-native/src/symbolication/module_lookup.rs  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index f0b5983..9064b3a 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -523,7 +523,11 @@ impl ModuleLookup {
     ///
     /// If there is no module at that index, this is a no-op.
     pub fn add_candidate(&mut self, idx: usize, candidate: &ObjectCandidate) {
-        let Some(entry) = self.modules.get_mut(idx) else {
+        let Some(entry) = self
+            .modules
+            .iter_mut()
+            .find(|entry| entry.module_index == idx)
+        else {
             return;
         };
 
-- 
2.43.0


From d2e880281c1dc00e0a9676beec633a6f80fe6010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 42/47] fix: keep the debug status of modules when fetching
 sources

---
 crates/symbolicator-native/src/symbolication/module_lookup.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index 9064b3a..f28519d 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -347,7 +347,6 @@ impl ModuleLookup {
             .filter_map(|(idx, entry)| {
                 let is_used = referenced_objects.contains(&entry.module_index);
                 if !is_used {
-                    entry.object_info.debug_status = ObjectFileStatus::Unused;
                     entry.source_object = Err(CacheError::NotFound);
                     return None;
                 }
-- 
2.43.0


From d6666ff3dcab56138e6ddf4b32f85e553e3b5ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:47 +0000
Subject: [PATCH 43/47] fix: keep secondary symbol files of private sources in
 the scope of the request

---
 .../src/caches/symcaches.rs                   | 19 ++++++++++++++++---
 .../src/objects/meta_cache.rs                 |  8 +++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-native/src/caches/symcaches.rs b/crates/symbolicator-native/src/caches/symcaches.rs
index 99a652f..64ebd5b 100644
--- a/crates/symbolicator-native/src/caches/symcaches.rs
+++ b/crates/symbolicator-native/src/caches/symcaches.rs
@@ -141,7 +141,7 @@ impl SymCacheActor {
                         self.bitcode_svc
                             .fetch_bcsymbolmap(
                                 debug_id,
-                                handle.scope().clone(),
+                                request.scope.clone(),
                                 request.sources.clone(),
                             )
                             .bind_hub(Hub::new_from_top(Hub::current()))
@@ -159,7 +159,7 @@ impl SymCacheActor {
                             .fetch_line_mapping(
                                 handle.object_id(),
                                 debug_id,
-                                handle.scope().clone(),
+                                request.scope.clone(),
                                 request.sources.clone(),
                             )
                             .bind_hub(Hub::new_from_top(Hub::current()))
@@ -172,7 +172,20 @@ impl SymCacheActor {
             let (bcsymbolmap_handle, il2cpp_handle) =
                 futures::future::join(fetch_bcsymbolmap, fetch_il2cpp).await;
 
-            let mut builder = handle.cache_key_builder();
+            // The SymCache contains information from the secondary sources, so it must not be
+            // available outside of the scope of the request unless these are public as well.
+            let secondary_is_public = bcsymbolmap_handle
+                .iter()
+                .map(|handle| &handle.file)
+                .chain(il2cpp_handle.iter().map(|handle| &handle.file))
+                .all(|file| file.is_public());
+            let scope = if secondary_is_public {
+                handle.scope()
+            } else {
+                &request.scope
+            };
+
+            let mut builder = handle.cache_key_builder_for_scope(scope);
             if let Some(handle) = &bcsymbolmap_handle {
                 builder.write_str("\nbcsymbolmap:\n").unwrap();
                 builder.write_file_meta(&handle.file).unwrap();
diff --git a/crates/symbolicator-service/src/objects/meta_cache.rs b/crates/symbolicator-service/src/objects/meta_cache.rs
index cd8b975..a854167 100644
--- a/crates/symbolicator-service/src/objects/meta_cache.rs
+++ b/crates/symbolicator-service/src/objects/meta_cache.rs
@@ -69,7 +69,13 @@ impl ObjectMetaHandle {
     }
 
     pub fn cache_key_builder(&self) -> CacheKeyBuilder {
-        let mut builder = CacheKey::scoped_builder(&self.scope);
+        self.cache_key_builder_for_scope(&self.scope)
+    }
+
+    /// Like [`cache_key_builder`](Self::cache_key_builder), but for a scope which is possibly
+    /// narrower than the one of the object.
+    pub fn cache_key_builder_for_scope(&self, scope: &Scope) -> CacheKeyBuilder {
+        let mut builder = CacheKey::scoped_builder(scope);
         builder.write_file_meta(&self.file_source).unwrap();
         builder
     }
-- 
2.43.0


From a0c6e7e07c048aeaa766a9a3c630dbfa8722300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:47 +0000
Subject: [PATCH 44/47] fix: keep source files fetched with credentials in the
 scope of the request

---
 .../src/symbolication/module_lookup.rs                   | 5 +++++
 .../src/symbolication/source_context.rs                  | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index f28519d..8cf0f1a 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -431,6 +431,11 @@ impl ModuleLookup {
             .collect()
     }
 
+    /// The scope of the request.
+    pub(crate) fn scope(&self) -> &Scope {
+        &self.scope
+    }
+
     /// Update the frame with source context, if available.
     ///
     /// Return a triple of scope, URL, and module index
diff --git a/crates/symbolicator-native/src/symbolication/source_context.rs b/crates/symbolicator-native/src/symbolication/source_context.rs
index 8e3a451..aa3af10 100644
--- a/crates/symbolicator-native/src/symbolication/source_context.rs
+++ b/crates/symbolicator-native/src/symbolication/source_context.rs
@@ -51,8 +51,9 @@ impl SymbolicationActor {
         // Download remote sources and update contexts.
         if !remote_sources.is_empty() {
             let cache = self.sourcefiles_cache.as_ref();
+            let request_scope = module_lookup.scope();
             let futures = remote_sources.into_iter().map(
-                |((source_scope, url), (module_idx, frames))| async move {
+                |((mut source_scope, url), (module_idx, frames))| async move {
                     let mut remote_file =
                         HttpRemoteFile::from_url(url.clone(), scraping.verify_ssl);
 
@@ -63,6 +64,12 @@ impl SymbolicationActor {
                                 .iter()
                                 .map(|(key, value)| (key.clone(), value.clone())),
                         );
+
+                        // What is fetched with the credentials of a request must not be available
+                        // outside of its scope.
+                        if !scraping.headers.is_empty() {
+                            source_scope = request_scope.clone();
+                        }
                     }
 
                     let uri = remote_file.uri();
-- 
2.43.0


From b32cef93a25c14b5b215ef87e2b8a90d4c74eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 45/47] fix: do not assume the alignment of the client-side
 stack traces in minidumps

---
 .../src/symbolication/minidump_stacktraces.rs | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs b/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs
index 400ab45..26ab2ac 100644
--- a/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs
+++ b/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs
@@ -211,8 +211,8 @@ mod format {
 
     #[derive(Debug)]
     pub struct Format<'data> {
-        threads: &'data [RawThread],
-        frames: &'data [RawFrame],
+        threads: Vec<RawThread>,
+        frames: Vec<RawFrame>,
         symbol_bytes: &'data [u8],
     }
 
@@ -228,8 +228,10 @@ mod format {
                 return Err(Error::HeaderTooSmall);
             }
 
-            // SAFETY: we will check validity of the header down below
-            let header = unsafe { &*(buf.as_ptr() as *const RawHeader) };
+            // SAFETY: we just checked that the buffer is large enough, and will check validity of the
+            // header down below. A minidump can have its streams at any offset, which means that
+            // neither the header nor what follows it has to be aligned in memory.
+            let header = unsafe { ptr::read_unaligned(buf.as_ptr() as *const RawHeader) };
             if header.version != MINIDUMP_FORMAT_VERSION {
                 return Err(Error::WrongVersion);
             }
@@ -256,16 +258,13 @@ mod format {
             // SAFETY: the above buffer size check also made sure we are not going out of bounds
             // here
             let threads = unsafe {
-                &*ptr::slice_from_raw_parts(
+                read_unaligned_slice(
                     threads_start as *const RawThread,
                     header.num_threads as usize,
                 )
             };
             let frames = unsafe {
-                &*ptr::slice_from_raw_parts(
-                    frames_start as *const RawFrame,
-                    header.num_frames as usize,
-                )
+                read_unaligned_slice(frames_start as *const RawFrame, header.num_frames as usize)
             };
             let symbol_bytes =
                 unsafe { &*ptr::slice_from_raw_parts(symbols_start, header.symbol_bytes as usize) };
@@ -286,6 +285,17 @@ mod format {
         }
     }
 
+    /// Copies `len` consecutive values out of memory that might not be aligned.
+    ///
+    /// # Safety
+    ///
+    /// `len` valid values of type `T` have to be readable starting at `start`.
+    unsafe fn read_unaligned_slice<T: Copy>(start: *const T, len: usize) -> Vec<T> {
+        (0..len)
+            .map(|index| ptr::read_unaligned(start.add(index)))
+            .collect()
+    }
+
     /// A convenience wrapper around a raw [`Thread`] contained in the minidump extension.
     pub struct Thread<'data> {
         format: &'data Format<'data>,
@@ -357,7 +367,7 @@ mod format {
         symbol_bytes: u32,
     }
 
-    #[derive(Debug)]
+    #[derive(Debug, Clone, Copy)]
     #[repr(C)]
     struct RawThread {
         thread_id: u32,
@@ -365,7 +375,7 @@ mod format {
         num_frames: u32,
     }
 
-    #[derive(Debug)]
+    #[derive(Debug, Clone, Copy)]
     #[repr(C)]
     struct RawFrame {
         instruction_addr: u64,
-- 
2.43.0


From 6843c56685590542e83910de7cb9936d8aaa6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:34 +0000
Subject: [PATCH 46/47] fix: stop counting requests that panic as in-flight
 requests

---
 crates/symbolicator/src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator/src/service.rs b/crates/symbolicator/src/service.rs
index 2fc01f8..f9e3103 100644
--- a/crates/symbolicator/src/service.rs
+++ b/crates/symbolicator/src/service.rs
@@ -414,6 +414,10 @@ impl RequestService {
             .unwrap()
             .insert(request_id, receiver.shared());
         current_requests.fetch_add(1, Ordering::Relaxed);
+        // This also stops counting requests that panic, or that are dropped prematurely.
+        let in_flight_token = CallOnDrop::new(move || {
+            current_requests.fetch_sub(1, Ordering::Relaxed);
+        });
         let drop_hub = hub.clone();
         let token = CallOnDrop::new(move || {
             requests.lock().unwrap().remove(&request_id);
@@ -480,7 +484,7 @@ impl RequestService {
 
             // We stop counting the request as an in-flight request at this point, even though
             // it will stay in the `requests` map for another 90s.
-            current_requests.fetch_sub(1, Ordering::Relaxed);
+            drop(in_flight_token);
 
             // Using `task_name` as the tag should be fine, there is only a small
             // fixed number of them.
-- 
2.43.0


From 1809e84102b37a350ab96ea8fd702601fca2542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:44 +0000
Subject: [PATCH 47/47] fix: check the limit of concurrent requests and count
 the request in one step

---
 crates/symbolicator/src/service.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/symbolicator/src/service.rs b/crates/symbolicator/src/service.rs
index f9e3103..2f14ee1 100644
--- a/crates/symbolicator/src/service.rs
+++ b/crates/symbolicator/src/service.rs
@@ -393,17 +393,26 @@ impl RequestService {
         let requests = Arc::clone(&self.inner.requests);
         let current_requests = Arc::clone(&self.inner.current_requests);
 
-        let num_requests = current_requests.load(Ordering::Relaxed);
+        // Reject the request if `max_concurrent_requests` are already in flight. Checking the limit
+        // and counting the request has to be a single step, as requests are created concurrently.
+        let max_requests = self.inner.max_concurrent_requests.unwrap_or(usize::MAX);
+        let counted =
+            current_requests.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |num_requests| {
+                (num_requests < max_requests).then_some(num_requests + 1)
+            });
+        let (Ok(num_requests) | Err(num_requests)) = counted;
         metric!(gauge("requests.in_flight") = num_requests as u64);
 
-        // Reject the request if `requests` already contains `max_concurrent_requests` elements.
-        if let Some(max_concurrent_requests) = self.inner.max_concurrent_requests {
-            if num_requests >= max_concurrent_requests {
-                metric!(counter("requests.rejected") += 1);
-                return Err(MaxRequestsError);
-            }
+        if counted.is_err() {
+            metric!(counter("requests.rejected") += 1);
+            return Err(MaxRequestsError);
         }
 
+        // This also stops counting requests that panic, or that are dropped prematurely.
+        let in_flight_token = CallOnDrop::new(move || {
+            current_requests.fetch_sub(1, Ordering::Relaxed);
+        });
+
         // Using `task_name` as the tag should be fine, there is only a small
         // fixed number of them.
         metric!(counter("requests.accepted") += 1, "task" => task_name);
@@ -413,11 +422,6 @@ impl RequestService {
             .lock()
             .unwrap()
             .insert(request_id, receiver.shared());
-        current_requests.fetch_add(1, Ordering::Relaxed);
-        // This also stops counting requests that panic, or that are dropped prematurely.
-        let in_flight_token = CallOnDrop::new(move || {
-            current_requests.fetch_sub(1, Ordering::Relaxed);
-        });
         let drop_hub = hub.clone();
         let token = CallOnDrop::new(move || {
             requests.lock().unwrap().remove(&request_id);
-- 
2.43.0

