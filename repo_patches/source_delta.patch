From a5eeec086b8cea6c5234dd7109467733700f2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 1/8] fix: report a failing exit status of wasm-merge as a
 merge failure

---
 wasm-merge/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 94bbfb9..ae85719 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -136,7 +136,7 @@ impl MergeOptions<'_> {
             .output()
             .map_err(Error::MergeExecutionFailed)?;
 
-        if !command_output.stderr.is_empty() {
+        if !command_output.status.success() || !command_output.stderr.is_empty() {
             let std_err_string = String::from_utf8_lossy(&command_output.stderr).to_string();
             return Err(Error::MergeExecutionFailedReason(std_err_string));
         }
-- 
2.43.0


From 031347c601496af0e9e7ef4755f06aa8068b4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 2/8] fix: invoke wasm-merge without a shell

Namespaces and paths were interpolated unquoted in a bash command line:
a namespace with blanks or shell metacharacters changed the command.
---
 wasm-merge/src/lib.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index ae85719..d324196 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -103,33 +103,18 @@ impl MergeOptions<'_> {
             })
             .collect::<Result<Vec<(&InputModule, String, NamedTempFile)>, Error>>()?;
 
-        let merge_name_combinations = merges
-            .iter()
-            .map(|(InputModule { namespace, .. }, input_module_path, ..)| {
-                format!("{input_module_path} {namespace}")
-            })
-            .collect::<Vec<String>>()
-            .join(" ");
-
         let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
         let output_file_path = output_file.path().to_string_lossy().to_string();
 
-        let merge_command = format!(
-            concat!(
-                "wasm-merge",
-                " {bash_arguments} ",
-                "{merge_name_combinations} -o {output_file_path}",
-            ),
-            bash_arguments = self.as_bash_arguments(),
-            merge_name_combinations = merge_name_combinations,
-            output_file_path = output_file_path,
-        );
-
         // FIXME: move this to separate file, splitting up functionality
         // FIXME: this implementation shares constructs with wastrumentation-instr-lib (code-dupe)
 
-        let mut command_merge = Command::new("bash");
-        command_merge.args(["-c", &merge_command]);
+        let mut command_merge = Command::new("wasm-merge");
+        command_merge.args(self.as_bash_arguments().split_whitespace());
+        for (InputModule { namespace, .. }, input_module_path, ..) in &merges {
+            command_merge.args([input_module_path, namespace]);
+        }
+        command_merge.args(["-o", &output_file_path]);
 
         // Kick off command, i.e. merge
         let command_output = command_merge
-- 
2.43.0


From c90cbd931b8fcbd2cdbf4b260d5f4aeae9f12e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 3/8] fix: do not look for wasp comments inside guest code

The guest block rule was not atomic: '#|' in guest code started a comment
that could swallow the closing delimiter and the advice behind it.
---
 wasp-compiler/wasp.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasp-compiler/wasp.pest b/wasp-compiler/wasp.pest
index 185c18b..5bd6030 100644
--- a/wasp-compiler/wasp.pest
+++ b/wasp-compiler/wasp.pest
@@ -9,7 +9,7 @@ wasp_input = { SOI ~ wasp ~ EOI }
 wasp       = { "(" ~ "aspect" ~ ("(" ~ advice_definition ~ ")")* ~ ")" }
 
 // Guest language block, currently hardcoded AssemblyScript
-GUEST_BLOCK = { ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
+GUEST_BLOCK = @{ ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
 
 // Advice definitions
 advice_definition = { advice_global | advice_trap }
-- 
2.43.0


From a2d9cd0881cd3a84804e0bbd34309a6f51ec653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 4/8] fix: pass temporary file paths to wasm-merge unaltered

---
 wasm-merge/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index d324196..65b1f44 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -10,6 +10,7 @@ pub mod error;
 pub mod options;
 
 use std::io::{Read, Write};
+use std::path::PathBuf;
 use std::process::Command;
 use tempfile::NamedTempFile;
 
@@ -87,7 +88,7 @@ impl MergeOptions<'_> {
             ..
         } = self;
 
-        let merges: Vec<(&InputModule, String, NamedTempFile)> = primary
+        let merges: Vec<(&InputModule, PathBuf, NamedTempFile)> = primary
             .as_ref()
             .map_or(vec![], |p| vec![p])
             .iter()
@@ -98,13 +99,13 @@ impl MergeOptions<'_> {
                 input_module
                     .write_all(module)
                     .map_err(Error::TempInputFileWriteFailed)?;
-                let input_module_path = input_module.path().to_string_lossy().to_string();
+                let input_module_path = input_module.path().to_path_buf();
                 Ok((*im, input_module_path, input_module))
             })
-            .collect::<Result<Vec<(&InputModule, String, NamedTempFile)>, Error>>()?;
+            .collect::<Result<Vec<(&InputModule, PathBuf, NamedTempFile)>, Error>>()?;
 
         let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
-        let output_file_path = output_file.path().to_string_lossy().to_string();
+        let output_file_path = output_file.path().to_path_buf();
 
         // FIXME: move this to separate file, splitting up functionality
         // FIXME: this implementation shares constructs with wastrumentation-instr-lib (code-dupe)
@@ -112,9 +113,9 @@ impl MergeOptions<'_> {
         let mut command_merge = Command::new("wasm-merge");
         command_merge.args(self.as_bash_arguments().split_whitespace());
         for (InputModule { namespace, .. }, input_module_path, ..) in &merges {
-            command_merge.args([input_module_path, namespace]);
+            command_merge.arg(input_module_path).arg(namespace);
         }
-        command_merge.args(["-o", &output_file_path]);
+        command_merge.arg("-o").arg(&output_file_path);
 
         // Kick off command, i.e. merge
         let command_output = command_merge
-- 
2.43.0


From 4d42de8e4c467b91979fb98a54d729e7851a93e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 5/8] fix: report why the input module failed to parse

---
 wastrumentation/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation/src/error.rs b/wastrumentation/src/error.rs
index c5ae3e6..c6a1c63 100644
--- a/wastrumentation/src/error.rs
+++ b/wastrumentation/src/error.rs
@@ -18,7 +18,7 @@ pub enum Error<AnalysisLangauge, InstrumentationLanguage> {
 
 #[derive(thiserror::Error, Debug)]
 pub enum InstrumentationError {
-    #[error("attempt to instrument an `import` function")]
+    #[error("failed to parse the input module: {0}")]
     ParseModuleError(ParseError),
     #[error("attempt to instrument inner code of an `import` function")]
     AttemptInnerInstrumentImport,
-- 
2.43.0


From d3c3490e81aebfb322ef01e8d1a37af5a5cbdb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 6/8] fix: keep analysis progress out of standard output

---
 wastrumentation-static-analysis/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/lib.rs b/wastrumentation-static-analysis/src/lib.rs
index 5334756..2defc3e 100644
--- a/wastrumentation-static-analysis/src/lib.rs
+++ b/wastrumentation-static-analysis/src/lib.rs
@@ -99,7 +99,7 @@ pub fn immutable_functions(module: &Module) -> HashSet<u32> {
             break;
         } else {
             iteration += 1;
-            println!("New finding, iteration {iteration}");
+            eprintln!("New finding, iteration {iteration}");
         }
     }
 
-- 
2.43.0


From 36c3cf513ed441adc87a7a50323d17387b7f51a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 7/8] fix: write the complete static analysis result

---
 wastrumentation-static-analysis/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/main.rs b/wastrumentation-static-analysis/src/main.rs
index 6a500ce..642f90e 100644
--- a/wastrumentation-static-analysis/src/main.rs
+++ b/wastrumentation-static-analysis/src/main.rs
@@ -48,6 +48,6 @@ fn main() -> anyhow::Result<()> {
                     .expect("Cannot convert to usize")
         });
     }
-    let _ = output_path.write(&serde_json::ser::to_vec(&results)?)?;
+    output_path.write_all(&serde_json::ser::to_vec(&results)?)?;
     Ok(())
 }
-- 
2.43.0


From 59ea7a358adebf8bf7a2535da0f8ce2f7111d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 8/8] fix: end the text of a global advice with a newline in
 the AssemblyScript analysis

Guest code whose last line is a comment, or has no semicolon, ran into the
advice that followed it.
---
 supported-languages/assemblyscript/src/generate/analysis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/supported-languages/assemblyscript/src/generate/analysis/mod.rs b/supported-languages/assemblyscript/src/generate/analysis/mod.rs
index 1ac3210..5669a12 100644
--- a/supported-languages/assemblyscript/src/generate/analysis/mod.rs
+++ b/supported-languages/assemblyscript/src/generate/analysis/mod.rs
@@ -101,7 +101,7 @@ impl Display for ASAdviceDefinition {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let Self(advice_definition) = self;
         match advice_definition {
-            AdviceDefinition::AdviceGlobal(program) => write!(f, "{program}"),
+            AdviceDefinition::AdviceGlobal(program) => writeln!(f, "{program}"),
             AdviceDefinition::AdviceTrap(trap) => ASTrapSignature(trap).fmt(f),
         }
     }
-- 
2.43.0

