From 49224539110168893dc2cc8bfcddf4ada06d169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 01/16] fix: report undefined names in messages in a fixed
 order

Protocol messages live in a HashMap; validating references in its iteration
order made the order of the diagnostics (and, for a name used twice, their
position) differ from run to run.
---
 src/compiler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3148bf3..447b8ce 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1022,7 +1022,11 @@ fn validate_all_references(
             // `validate_references()` alone does not see them. We must validate
             // them explicitly here. Without this, undefined types in messages
             // silently pass through (Java rejects them with "Undefined schema").
-            for msg in protocol.messages.values() {
+            // Visit messages by name: the map's own order changes from run to
+            // run, and it would show in the order of the diagnostics.
+            let mut messages: Vec<_> = protocol.messages.iter().collect();
+            messages.sort_by_key(|(name, _)| *name);
+            for (_, msg) in messages {
                 unresolved.extend(registry.validate_schema(&msg.response));
                 for field in &msg.request {
                     unresolved.extend(registry.validate_schema(&field.schema));
-- 
2.43.0


From e48cda5c691389a0bab033cafb09a7469a59b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 02/16] fix: serialize protocol messages in a fixed order

A named type that only messages mention (for example one defined inline in
the messages of an imported .avpr) is written in full in the first message
serialized. That message was chosen by HashMap iteration order, so the same
source compiled to different JSON from run to run.
---
 src/model/json.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model/json.rs b/src/model/json.rs
index f715cf3..8e9ccdc 100644
--- a/src/model/json.rs
+++ b/src/model/json.rs
@@ -88,7 +88,11 @@ pub fn protocol_to_json(protocol: &Protocol) -> Value {
     obj.insert("types".to_string(), Value::Array(types));
 
     let mut messages_obj = Map::new();
-    for (name, msg) in &protocol.messages {
+    // Serialize messages by name: a named type is written in full where it is
+    // first met, so the map's own (random) order would show in the output.
+    let mut messages: Vec<_> = protocol.messages.iter().collect();
+    messages.sort_by_key(|(name, _)| *name);
+    for (name, msg) in messages {
         messages_obj.insert(
             name.clone(),
             message_to_json(
-- 
2.43.0


From 90ad4ef14d9b8eda74b490990bc2072ded044e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 03/16] fix: name dropped union annotations in a fixed order

The warning listed the annotations in HashMap iteration order.
---
 src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index c9f6196..892c388 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3262,7 +3262,9 @@ fn walk_full_type<'input>(
     // drops them without feedback. Nullable unions (`type?` syntax) are fine
     // because annotations are applied to the non-null branch instead.
     if !props.properties.is_empty() && is_non_nullable_union(&schema) {
-        let keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        // Sorted, because the order of the map differs from run to run.
+        let mut keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        keys.sort_unstable();
         src.warnings
             .borrow_mut()
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
-- 
2.43.0


From bf0130bfb26bbdb45705f2f74db22402d549c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 04/16] fix: do not report warnings of an earlier call

`compile` clears the accumulated warnings, but a call can fail before it gets
there (the input cannot be read, the directory cannot be listed), and draining
after such a call returned the undrained warnings of the previous one.
---
 src/compiler.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 447b8ce..865a37b 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,6 +92,10 @@ impl IdlCompiler {
     /// `Idl2Schemata::extract(path)`. It reads the file, determines the parent
     /// directory and canonical path, then delegates to [`compile`](Self::compile).
     fn compile_file(&mut self, path: &Path) -> miette::Result<CompileOutput> {
+        // Reading the file can fail before `compile` is reached; warnings of
+        // an earlier call must not be left for this one to report.
+        self.accumulated_warnings.clear();
+
         let source = fs::read_to_string(path)
             .map_err(|e| miette::miette!("{e}"))
             .with_context(|| format!("read {}", path.display()))?;
@@ -117,6 +121,8 @@ impl IdlCompiler {
         source: &'static str,
         name: &'static str,
     ) -> miette::Result<CompileOutput> {
+        self.accumulated_warnings.clear();
+
         let cwd = std::env::current_dir()
             .map_err(|e| miette::miette!("{e}"))
             .context("determine current directory")?;
@@ -493,6 +499,8 @@ impl Idl2Schemata {
     /// each. Each file is processed independently with its own registry.
     /// Results are concatenated.
     fn extract_directory(&mut self, dir: &Path) -> miette::Result<SchemataOutput> {
+        self.inner.accumulated_warnings.clear();
+
         let mut all_schemas = Vec::new();
         let mut all_warnings = Vec::new();
 
-- 
2.43.0


From 33507716d8987e97903dc266107c5c7814ba0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 05/16] fix: keep the warnings of earlier files when extracting
 a directory fails

When one file of a directory failed to compile, the warnings of the files
processed before it were dropped: they were neither returned nor drainable.
---
 src/compiler.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 865a37b..a07d45d 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -517,7 +517,15 @@ impl Idl2Schemata {
         }
 
         for avdl_path in &avdl_paths {
-            let compiled = self.inner.compile_file(avdl_path)?;
+            let compiled = match self.inner.compile_file(avdl_path) {
+                Ok(compiled) => compiled,
+                Err(e) => {
+                    // Keep the warnings of the files before this one available
+                    // via `drain_warnings()`, ahead of this file's own.
+                    self.inner.accumulated_warnings.splice(0..0, all_warnings);
+                    return Err(e);
+                }
+            };
             let output = Self::extract_impl(compiled);
             all_schemas.extend(output.schemas);
             all_warnings.extend(output.warnings);
-- 
2.43.0


From 331e91dcfde50ca50589f2115ff6189f3e01f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 06/16] fix: fail when part of a directory cannot be listed

Errors from walking the directory given to `extract` were ignored, so the
schemas below an unreadable subdirectory were left out and the call still
succeeded.
---
 src/compiler.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index a07d45d..1b3e21a 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -505,11 +505,9 @@ impl Idl2Schemata {
         let mut all_warnings = Vec::new();
 
         let mut avdl_paths: Vec<PathBuf> = Vec::new();
-        for entry in walkdir::WalkDir::new(dir)
-            .sort_by_file_name()
-            .into_iter()
-            .filter_map(|e| e.ok())
-        {
+        for entry in walkdir::WalkDir::new(dir).sort_by_file_name() {
+            // Fail rather than silently leave out what could not be listed.
+            let entry = entry.map_err(|e| miette::miette!("{e}: list {}", dir.display()))?;
             let path = entry.path();
             if path.extension().and_then(|e| e.to_str()) == Some("avdl") {
                 avdl_paths.push(path.to_path_buf());
-- 
2.43.0


From a97f8766dcebe380d7caf6aae8f2055d4e4bff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 07/16] fix: let an imported protocol's own messages win over
 its imports

For the main file, its own messages override imported ones of the same name.
For an imported file it was the other way round: its messages were merged
before its imports were processed, so a nested import replaced them.
---
 src/compiler.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 1b3e21a..41cfff7 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -835,11 +835,6 @@ fn resolve_single_import(
                     .push(miette::Report::new(w).wrap_err(import_file_name.to_string()));
             }
 
-            // If the imported IDL is a protocol, merge its messages.
-            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
-                ctx.messages.extend(imported_protocol.messages.clone());
-            }
-
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
             // `ctx.json_import_spans` is passed through to capture any nested
@@ -847,6 +842,12 @@ fn resolve_single_import(
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
+
+            // If the imported IDL is a protocol, merge its messages. This comes
+            // after its own imports, so that its messages win over theirs.
+            if let IdlFile::Protocol(imported_protocol) = imported_idl {
+                ctx.messages.extend(imported_protocol.messages);
+            }
         }
     }
 
-- 
2.43.0


From 9b463e849e05e8bd3926985593ce62d6725a9179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 08/16] fix: do not take an I/O error for a missing import

`Path::exists` reports any error as absence, so a failing or forbidden lookup
in one directory made the compiler silently use a file of the same name from a
later import directory.
---
 src/import.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index ee5f676..38f27eb 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -22,6 +22,7 @@
 // cycles, then handles the recursive parse itself.
 
 use std::collections::{HashMap, HashSet};
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 
 use serde_json::Value;
@@ -75,7 +76,7 @@ impl ImportContext {
     pub fn resolve_import(&self, import_file: &str, current_dir: &Path) -> Result<PathBuf> {
         // Try relative to current file's directory first.
         let relative = current_dir.join(import_file);
-        if relative.exists() {
+        if import_exists(&relative)? {
             return relative.canonicalize().map_err(|e| {
                 miette::miette!(
                     "canonicalize import path `{import_file}` relative to `{}`: {e}",
@@ -87,7 +88,7 @@ impl ImportContext {
         // Try each import search directory.
         for dir in &self.import_dirs {
             let candidate = dir.join(import_file);
-            if candidate.exists() {
+            if import_exists(&candidate)? {
                 return candidate.canonicalize().map_err(|e| {
                     miette::miette!(
                         "canonicalize import path `{import_file}` in import dir `{}`: {e}",
@@ -118,6 +119,29 @@ impl ImportContext {
     }
 }
 
+/// Whether an import candidate exists. An error that leaves this open (such as
+/// an I/O error or a directory that may not be searched) is reported instead of
+/// being taken for absence: falling through to the next search directory could
+/// silently pick up a different file of the same name.
+fn import_exists(candidate: &Path) -> Result<bool> {
+    match candidate.try_exists() {
+        Ok(exists) => Ok(exists),
+        // No file can be at such a path.
+        Err(e)
+            if matches!(
+                e.kind(),
+                ErrorKind::NotADirectory | ErrorKind::InvalidFilename | ErrorKind::InvalidInput
+            ) =>
+        {
+            Ok(false)
+        }
+        Err(e) => Err(miette::miette!(
+            "look for import `{}`: {e}",
+            candidate.display()
+        )),
+    }
+}
+
 // ==============================================================================
 // Schema Flattening and Registration for Imports
 // ==============================================================================
-- 
2.43.0


From 1f926f32f07d7638613f5826cf5293ac96f1ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 09/16] fix: fail when the end of the output cannot be written
 to stdout

Stdout is line buffered, and the last line of the JSON has no newline, so it
was only written when the process exited, where errors are ignored: with a
full disk the command reported success and the output lacked its end.
---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8d36c85..1c006ad 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -304,9 +304,14 @@ fn write_output(output: Option<&str>, content: &str) -> miette::Result<()> {
     match file_path {
         None => {
             // Write to stdout without trailing newline, matching Java behavior.
-            // Handle BrokenPipe gracefully.
+            // Handle BrokenPipe gracefully. Flush explicitly: what is still
+            // buffered at exit is written then, but errors are ignored.
             use std::io::Write;
-            if let Err(e) = write!(io::stdout(), "{content}") {
+            let mut stdout = io::stdout().lock();
+            if let Err(e) = stdout
+                .write_all(content.as_bytes())
+                .and_then(|()| stdout.flush())
+            {
                 if e.kind() == io::ErrorKind::BrokenPipe {
                     return Ok(());
                 }
-- 
2.43.0


From c2158f623b409e6aa48686938381d28c3f792563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 10/16] fix: do not panic when stderr or stdout cannot be
 written

`eprintln!` panics when a warning cannot be written (stderr on a full disk, or
its reader gone), after which no output was produced at all; `println!` did
the same for help and version texts.
---
 src/main.rs | 50 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1c006ad..991cf08 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -74,8 +74,7 @@ fn parse_idl_args(parser: &mut lexopt::Parser) -> Result<IdlArgs, lexopt::Error>
                 import_dirs.push(PathBuf::from(val));
             }
             Short('h') | Long("help") => {
-                println!("{IDL_HELP}");
-                std::process::exit(0);
+                exit_with_help(IDL_HELP);
             }
             Value(val) => {
                 positionals.push(val.string()?);
@@ -106,8 +105,7 @@ fn parse_idl2schemata_args(parser: &mut lexopt::Parser) -> Result<Idl2schemataAr
                 import_dirs.push(PathBuf::from(val));
             }
             Short('h') | Long("help") => {
-                println!("{IDL2SCHEMATA_HELP}");
-                std::process::exit(0);
+                exit_with_help(IDL2SCHEMATA_HELP);
             }
             Value(val) => {
                 positionals.push(val.string()?);
@@ -146,24 +144,24 @@ fn main() -> miette::Result<()> {
     let subcommand = match parser.next() {
         Ok(Some(Value(val))) => val.string().map_err(|e| miette::miette!("{e}"))?,
         Ok(Some(Short('h') | Long("help"))) => {
-            println!("{MAIN_HELP}");
-            return Ok(());
+            return write_output(None, &format!("{MAIN_HELP}\n"));
         }
         Ok(Some(Short('V') | Long("version"))) => {
-            println!("avdl {}", env!("CARGO_PKG_VERSION"));
-            return Ok(());
+            return write_output(None, concat!("avdl ", env!("CARGO_PKG_VERSION"), "\n"));
         }
         Ok(Some(other)) => {
             let err = other.unexpected();
-            eprintln!("error: {err}\n\n{MAIN_HELP}");
+            report(format_args!("error: {err}\n\n{MAIN_HELP}"));
             std::process::exit(2);
         }
         Ok(None) => {
-            eprintln!("error: a subcommand is required\n\n{MAIN_HELP}");
+            report(format_args!(
+                "error: a subcommand is required\n\n{MAIN_HELP}"
+            ));
             std::process::exit(2);
         }
         Err(e) => {
-            eprintln!("error: {e}");
+            report(format_args!("error: {e}"));
             std::process::exit(2);
         }
     };
@@ -178,7 +176,9 @@ fn main() -> miette::Result<()> {
             run_idl2schemata(args.input, args.outdir, args.import_dirs)
         }
         other => {
-            eprintln!("error: unknown subcommand `{other}`\n\n{MAIN_HELP}");
+            report(format_args!(
+                "error: unknown subcommand `{other}`\n\n{MAIN_HELP}"
+            ));
             std::process::exit(2);
         }
     }
@@ -219,7 +219,7 @@ fn run_idl(
     match idl_output {
         Ok(idl_output) => {
             for w in &idl_output.warnings {
-                eprintln!("{w:?}");
+                report(format_args!("{w:?}"));
             }
 
             let json_str = serde_json::to_string_pretty(&idl_output.json)
@@ -231,7 +231,7 @@ fn run_idl(
         }
         Err(e) => {
             for w in builder.drain_warnings() {
-                eprintln!("{w:?}");
+                report(format_args!("{w:?}"));
             }
             Err(e)
         }
@@ -258,7 +258,7 @@ fn run_idl2schemata(
             // Emit warnings that were accumulated before the error. These
             // would otherwise be lost since `extract` returns `Err`.
             for w in builder.drain_warnings() {
-                eprintln!("{w:?}");
+                report(format_args!("{w:?}"));
             }
             return Err(e);
         }
@@ -267,7 +267,7 @@ fn run_idl2schemata(
     // Emit warnings to stderr. Rendered through miette for rich diagnostic
     // output with source spans and labels when available.
     for w in &schemata_output.warnings {
-        eprintln!("{w:?}");
+        report(format_args!("{w:?}"));
     }
 
     let output_dir = outdir.unwrap_or_else(|| PathBuf::from("."));
@@ -296,6 +296,24 @@ fn run_idl2schemata(
 // Output Writing
 // ==============================================================================
 
+/// Print a warning or usage message to stderr. Unlike `eprintln!`, this does not
+/// panic if that fails: losing a message must not lose the output.
+fn report(message: std::fmt::Arguments<'_>) {
+    use std::io::Write;
+    let _ = writeln!(io::stderr(), "{message}");
+}
+
+/// Print a help text to stdout and exit.
+fn exit_with_help(help: &str) -> ! {
+    match write_output(None, &format!("{help}\n")) {
+        Ok(()) => std::process::exit(0),
+        Err(e) => {
+            report(format_args!("Error: {e:?}"));
+            std::process::exit(1)
+        }
+    }
+}
+
 /// Write output to a file or stdout.
 fn write_output(output: Option<&str>, content: &str) -> miette::Result<()> {
     // Treat `None` and `Some("-")` as stdout; everything else is a file path.
-- 
2.43.0


From 250d90a343887cf3acef146eaffac0c673abab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 11/16] fix: fail when the input's path cannot be resolved

The input was then not marked as imported, so a cyclic import read it a second
time and the types came out in another order, with status 0.
---
 src/compiler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 41cfff7..e0dc790 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -106,7 +106,16 @@ impl IdlCompiler {
             .map(|p| p.to_path_buf())
             .unwrap_or_else(|| PathBuf::from("."));
         let dir = dir.canonicalize().unwrap_or(dir);
-        let canonical_path = path.canonicalize().ok();
+        // Pipes (`/dev/fd/63`) can be read but have no path of their own. After
+        // any other failure imports of this file would not be recognized.
+        let canonical_path = match path.canonicalize() {
+            Ok(p) => Some(p),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => None,
+            Err(e) => {
+                return Err(miette::miette!("{e}"))
+                    .with_context(|| format!("canonicalize {}", path.display()));
+            }
+        };
 
         let source = source.leak();
         let source_name = source_name.leak();
-- 
2.43.0


From 2db93b5abcb182caef85aee6123d205037c0c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 12/16] fix: write a null namespace within a non-null one

A type of the null namespace imported into a protocol that has one was written
without a namespace and so became another type.
---
 src/model/json.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/model/json.rs b/src/model/json.rs
index 8e9ccdc..6d2c7c6 100644
--- a/src/model/json.rs
+++ b/src/model/json.rs
@@ -55,7 +55,8 @@ pub fn protocol_to_json(protocol: &Protocol) -> Value {
     // Build a lookup table from all named types in the protocol's type list.
     // This includes nested types inside records/fields that were registered
     // in the schema registry.
-    let lookup = build_lookup(&protocol.types, protocol.namespace.as_deref());
+    // By now every type carries its own namespace; none means the null one.
+    let lookup = build_lookup(&protocol.types, None);
 
     let mut known_names = HashSet::new();
     let mut obj = Map::new();
@@ -214,14 +215,12 @@ fn named_type_preamble(
     let mut obj = Map::new();
     obj.insert("type".to_string(), Value::String(type_str.to_string()));
     obj.insert("name".to_string(), Value::String(name.to_string()));
-    // Emit the namespace key when it differs from the enclosing context.
-    // Special case: when there's no enclosing namespace (standalone .avsc),
-    // treat an empty-string namespace the same as None — Java normalizes
-    // empty namespace to null, so `writeName()` omits it.
-    if namespace != enclosing_namespace
-        && let Some(ns) = namespace
-        && !(ns.is_empty() && enclosing_namespace.is_none())
-    {
+    // Emit the namespace key when it differs from the enclosing context. An
+    // empty namespace is the same as none — Java normalizes it to null. Like
+    // Java's `writeName()`, write a null namespace within a non-null one as
+    // the empty string: without the key it would be the enclosing one.
+    let ns = namespace.unwrap_or_default();
+    if ns != enclosing_namespace.unwrap_or_default() {
         obj.insert("namespace".to_string(), Value::String(ns.to_string()));
     }
     if let Some(doc) = doc {
@@ -308,7 +307,7 @@ pub fn schema_to_json(
             };
             let fields_json: Vec<Value> = fields
                 .iter()
-                .map(|f| field_to_json(f, known_names, ns.or(enclosing_namespace), lookup))
+                .map(|f| field_to_json(f, known_names, ns, lookup))
                 .collect();
             obj.insert("fields".to_string(), Value::Array(fields_json));
             finish_named_type(&mut obj, properties, aliases, ns);
-- 
2.43.0


From 23882b353ea5d6301aecf77bc3835c00c64c5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 13/16] fix: do not change types on import for their logical
 type

A logical type on a base it does not fit made the imported JSON type another
one, precision and scale of other logical types were dropped, and a decimal with
precision 0 that the IDL reader lets through could not be imported again.
---
 src/import.rs       | 22 ++++++++++------------
 src/model/schema.rs |  2 +-
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 38f27eb..1ef32e4 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -710,18 +710,16 @@ fn parse_annotated_primitive(
         let scale_u64 = obj.get("scale").and_then(|s| s.as_u64());
         let scale = scale_u64.and_then(|v| u32::try_from(v).ok());
 
-        if let Some(lt) = parse_logical_type(logical, precision, scale) {
-            // For decimal, validate that precision >= 1 (the shared helper
-            // returns None when precision is absent, but we also need to
-            // reject explicit zero).
-            if let LogicalType::Decimal { precision, .. } = &lt
-                && *precision < 1
-            {
-                miette::bail!("decimal precision must be >= 1");
-            }
-
-            let properties =
-                collect_extra_properties(obj, &["type", "logicalType", "precision", "scale"]);
+        // As in the IDL reader, a logical type on the wrong base is only a
+        // property: it must not change the type.
+        if let Some(lt) = parse_logical_type(logical, precision, scale)
+            && lt.expected_base_type() == str_to_primitive_type(prim)
+        {
+            let consumed: &[&str] = match &lt {
+                LogicalType::Decimal { .. } => &["type", "logicalType", "precision", "scale"],
+                _ => &["type", "logicalType"],
+            };
+            let properties = collect_extra_properties(obj, consumed);
             return Ok(AvroSchema::Logical {
                 logical_type: lt,
                 properties,
diff --git a/src/model/schema.rs b/src/model/schema.rs
index 9963f9e..db68dcc 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -228,7 +228,7 @@ pub(crate) fn parse_logical_type(
         "local-timestamp-micros" => Some(LogicalType::LocalTimestampMicros),
         "uuid" => Some(LogicalType::Uuid),
         "decimal" => {
-            let precision = precision?;
+            let precision = precision.filter(|&p| p >= 1)?;
             Some(LogicalType::Decimal {
                 precision,
                 scale: scale.unwrap_or(0),
-- 
2.43.0


From 0e469d3e96324b069533f9b9bcb5a4a2310ce5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 14/16] fix: do not expand every type once per path when
 validating defaults

Validating the default of a field of a named type resolved all references
below that type, spelling out a shared type once for every path to it.
A protocol with twenty layers of records, each using the one below twice,
took minutes and gigabytes. Resolve only where the default has a value to
validate, and check that the references resolve in one linear pass.
---
 src/model/schema.rs | 94 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 82 insertions(+), 12 deletions(-)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index db68dcc..467f43e 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -917,7 +917,7 @@ where
         // Only intervene for Reference types (and unions containing them).
         // Non-Reference types are already validated at parse time by
         // `walk_variable` in reader.rs.
-        let resolved_schema = resolve_for_validation(&field.schema, &resolver);
+        let resolved_schema = resolve_for_validation(&field.schema, default_val, &resolver);
         if let Some(ref resolved) = resolved_schema
             && let Some(reason) = validate_default(default_val, resolved)
         {
@@ -939,25 +939,78 @@ where
 /// This function performs deep resolution: it recursively resolves References
 /// inside record fields, array items, map values, and union branches. This is
 /// necessary for validating nested record defaults where inner types may also
-/// be References.
-fn resolve_for_validation<F>(schema: &AvroSchema, resolver: &F) -> Option<AvroSchema>
+/// be References. It does so only where `value` has something to validate:
+/// resolving everything would spell out shared types once per path to them,
+/// which is exponential in the depth of the type graph.
+fn resolve_for_validation<F>(schema: &AvroSchema, value: &Value, resolver: &F) -> Option<AvroSchema>
 where
     F: Fn(&str) -> Option<AvroSchema>,
 {
     use std::collections::HashSet;
+
+    if !all_references_resolve(schema, resolver) {
+        return None;
+    }
     let mut visited = HashSet::new();
-    resolve_for_validation_inner(schema, resolver, &mut visited)
+    resolve_for_validation_inner(schema, &[value], resolver, &mut visited)
 }
 
-/// Inner recursive function with cycle detection via a `visited` set.
+/// Whether every reference in a schema, and in the types it refers to, can be
+/// resolved.
+fn all_references_resolve<F>(schema: &AvroSchema, resolver: &F) -> bool
+where
+    F: Fn(&str) -> Option<AvroSchema>,
+{
+    let mut seen = std::collections::HashSet::new();
+    let mut pending = vec![schema.clone()];
+    while let Some(schema) = pending.pop() {
+        match schema {
+            AvroSchema::Reference {
+                name, namespace, ..
+            } => {
+                let full_name = make_full_name(&name, namespace.as_deref()).into_owned();
+                if !seen.contains(&full_name) {
+                    match resolver(&full_name) {
+                        Some(resolved) => pending.push(resolved),
+                        None => return false,
+                    }
+                    seen.insert(full_name);
+                }
+            }
+            AvroSchema::Union { types, .. } => pending.extend(types),
+            AvroSchema::Record {
+                name,
+                namespace,
+                fields,
+                ..
+            } => {
+                seen.insert(make_full_name(&name, namespace.as_deref()).into_owned());
+                pending.extend(fields.into_iter().map(|field| field.schema));
+            }
+            AvroSchema::Array { items, .. } => pending.push(*items),
+            AvroSchema::Map { values, .. } => pending.push(*values),
+            _ => {}
+        }
+    }
+    true
+}
+
+/// Inner recursive function with cycle detection via a `visited` set. `values`
+/// are the values to be validated against `schema`.
 fn resolve_for_validation_inner<F>(
     schema: &AvroSchema,
+    values: &[&Value],
     resolver: &F,
     visited: &mut std::collections::HashSet<String>,
 ) -> Option<AvroSchema>
 where
     F: Fn(&str) -> Option<AvroSchema>,
 {
+    // Nothing is validated against this part of the schema.
+    if values.is_empty() {
+        return Some(schema.clone());
+    }
+
     match schema {
         AvroSchema::Reference {
             name, namespace, ..
@@ -974,8 +1027,9 @@ where
             }
             // Resolve the reference first, then recursively resolve any nested
             // References inside the resolved type.
-            resolver(&full_name)
-                .and_then(|resolved| resolve_for_validation_inner(&resolved, resolver, visited))
+            resolver(&full_name).and_then(|resolved| {
+                resolve_for_validation_inner(&resolved, values, resolver, visited)
+            })
         }
         AvroSchema::Union {
             types,
@@ -986,7 +1040,7 @@ where
             // entire union.
             let mut resolved_types = Vec::with_capacity(types.len());
             for branch in types {
-                match resolve_for_validation_inner(branch, resolver, visited) {
+                match resolve_for_validation_inner(branch, values, resolver, visited) {
                     Some(resolved) => resolved_types.push(resolved),
                     None => return None,
                 }
@@ -1013,8 +1067,10 @@ where
             // nested record default validation can see the full types.
             let mut resolved_fields = Vec::with_capacity(fields.len());
             for field in fields {
+                let field_values: Vec<&Value> =
+                    values.iter().filter_map(|v| v.get(&field.name)).collect();
                 let resolved_schema =
-                    resolve_for_validation_inner(&field.schema, resolver, visited)?;
+                    resolve_for_validation_inner(&field.schema, &field_values, resolver, visited)?;
                 resolved_fields.push(Field {
                     name: field.name.clone(),
                     schema: resolved_schema,
@@ -1040,14 +1096,28 @@ where
             })
         }
         AvroSchema::Array { items, properties } => {
-            let resolved_items = resolve_for_validation_inner(items, resolver, visited)?;
+            let elements: Vec<&Value> = values
+                .iter()
+                .filter_map(|v| v.as_array())
+                .flatten()
+                .collect();
+            let resolved_items = resolve_for_validation_inner(items, &elements, resolver, visited)?;
             Some(AvroSchema::Array {
                 items: Box::new(resolved_items),
                 properties: properties.clone(),
             })
         }
-        AvroSchema::Map { values, properties } => {
-            let resolved_values = resolve_for_validation_inner(values, resolver, visited)?;
+        AvroSchema::Map {
+            values: value_schema,
+            properties,
+        } => {
+            let entries: Vec<&Value> = values
+                .iter()
+                .filter_map(|v| v.as_object())
+                .flat_map(|object| object.values())
+                .collect();
+            let resolved_values =
+                resolve_for_validation_inner(value_schema, &entries, resolver, visited)?;
             Some(AvroSchema::Map {
                 values: Box::new(resolved_values),
                 properties: properties.clone(),
-- 
2.43.0


From 96d8d8be8d243e0d3da1c2f6657cbf2997ebb7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:06 +0000
Subject: [PATCH 15/16] fix: report types of imported JSON that cannot be
 registered

A type with an invalid name was silently left out of the output (and the
compile succeeded) when it came from an imported .avsc or .avpr file.
---
 src/import.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 1ef32e4..a6b8040 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -306,12 +306,19 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 /// registers nested types as it encounters them.
 ///
 /// Duplicate registrations are silently ignored (the first definition wins),
-/// matching Java's behavior for imports.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) {
+/// matching Java's behavior for imports. A type that cannot be registered for
+/// another reason (an invalid name) is an error: it must not be left out.
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<()> {
     let (types, _top_level) = flatten_schema(schema);
     for t in types {
-        let _ = registry.register(t);
+        let known = t
+            .full_name()
+            .is_some_and(|name| registry.lookup(&name).is_some());
+        if !known {
+            registry.register(t).map_err(|e| miette::miette!("{e}"))?;
+        }
     }
+    Ok(())
 }
 
 // ==============================================================================
@@ -348,7 +355,12 @@ pub fn import_protocol(
                     path.display()
                 )
             })?;
-            flatten_and_register(schema, registry);
+            flatten_and_register(schema, registry).map_err(|e| {
+                miette::miette!(
+                    "register type at index {i} in protocol `{}`: {e}",
+                    path.display()
+                )
+            })?;
         }
     }
 
@@ -387,9 +399,8 @@ pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
 
     let schema = json_to_schema(&json, None)
         .map_err(|e| miette::miette!("parse schema from `{}`: {e}", path.display()))?;
-    flatten_and_register(schema, registry);
-
-    Ok(())
+    flatten_and_register(schema, registry)
+        .map_err(|e| miette::miette!("register types from `{}`: {e}", path.display()))
 }
 
 // ==============================================================================
-- 
2.43.0


From 1cbb52981bbd16cc613395cc0aa48602f9e53459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 16/16] fix: register types that imported protocols define
 within messages

---
 src/import.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index a6b8040..3afbf2d 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -308,8 +308,10 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 /// Duplicate registrations are silently ignored (the first definition wins),
 /// matching Java's behavior for imports. A type that cannot be registered for
 /// another reason (an invalid name) is an error: it must not be left out.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<()> {
-    let (types, _top_level) = flatten_schema(schema);
+///
+/// Returns the schema with the registered types replaced by references.
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<AvroSchema> {
+    let (types, top_level) = flatten_schema(schema);
     for t in types {
         let known = t
             .full_name()
@@ -318,7 +320,7 @@ fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Re
             registry.register(t).map_err(|e| miette::miette!("{e}"))?;
         }
     }
-    Ok(())
+    Ok(top_level)
 }
 
 // ==============================================================================
@@ -367,12 +369,28 @@ pub fn import_protocol(
     // Extract messages.
     if let Some(msgs) = json.get("messages").and_then(|m| m.as_object()) {
         for (name, msg_json) in msgs {
-            let message = json_to_message(msg_json, default_namespace).map_err(|e| {
+            let mut message = json_to_message(msg_json, default_namespace).map_err(|e| {
                 miette::miette!(
                     "parse message `{name}` in protocol `{}`: {e}",
                     path.display()
                 )
             })?;
+            // Named types may also be defined within a message.
+            let schemas = message
+                .request
+                .iter_mut()
+                .map(|param| &mut param.schema)
+                .chain(std::iter::once(&mut message.response))
+                .chain(message.errors.iter_mut().flatten());
+            for schema in schemas {
+                let nested = std::mem::replace(schema, AvroSchema::Null);
+                *schema = flatten_and_register(nested, registry).map_err(|e| {
+                    miette::miette!(
+                        "register types of message `{name}` in protocol `{}`: {e}",
+                        path.display()
+                    )
+                })?;
+            }
             messages.insert(name.clone(), message);
         }
     }
@@ -400,7 +418,8 @@ pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
     let schema = json_to_schema(&json, None)
         .map_err(|e| miette::miette!("parse schema from `{}`: {e}", path.display()))?;
     flatten_and_register(schema, registry)
-        .map_err(|e| miette::miette!("register types from `{}`: {e}", path.display()))
+        .map_err(|e| miette::miette!("register types from `{}`: {e}", path.display()))?;
+    Ok(())
 }
 
 // ==============================================================================
-- 
2.43.0

