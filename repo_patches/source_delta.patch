From 3c96bde51cae9e35a1760934e9dfb3080a972ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:58 +0000
Subject: [PATCH 01/56] fix: let words longer than a line spill over instead of
 recursing without end in write_flowable_text

---
 mutagenyx_lib/src/pretty_printer.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 6f554b3..79de2e8 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -333,9 +333,23 @@ impl PrettyPrinter {
 
         let t = text.as_str();
 
-        if t.len() > (self.page_width - self.column) {
-            let space_left = self.page_width - self.column;
-            if space_left == 0 {
+        let space_left = self.page_width.saturating_sub(self.column);
+        if t.len() > space_left {
+            // The next word may be too long for any line.  When a new line would not provide more
+            // room for the word, then let the word spill over the page width.
+            let new_line_column = 1 + self.indent_length() + next_line_text.len();
+            let first_word_length = t.find(' ').unwrap_or(t.len());
+            if first_word_length > space_left && self.column <= new_line_column {
+                let (word, rest) = t.split_at(first_word_length);
+                self.write_basic_string(stream, word)?;
+                let rest = rest.trim_start();
+                if !rest.is_empty() {
+                    self.write_newline(stream)?;
+                    self.write_indent(stream)?;
+                    self.write_token(stream, next_line_text)?;
+                    self.write_flowable_text(stream, rest, next_line_text)?;
+                }
+            } else if space_left == 0 {
                 self.write_newline(stream)?;
                 self.write_indent(stream)?;
                 self.write_token(stream, next_line_text)?;
-- 
2.43.0


From 3f115097c2d299a953f50281c045bd74cfb8fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:05 +0000
Subject: [PATCH 02/56] fix: survive compiler output and vyper versions that
 are not the expected UTF-8 and a.b.c

---
 .../src/solidity/language_interface.rs        |  8 ++--
 mutagenyx_lib/src/vyper/language_interface.rs | 43 ++++++++-----------
 2 files changed, 22 insertions(+), 29 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 70f9b41..ac17e3d 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -278,8 +278,8 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
             if output.status.success() {
                 Ok(out_path)
             } else {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(&output.stdout);
+                let stderr_contents = String::from_utf8_lossy(&output.stderr);
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
@@ -345,8 +345,8 @@ fn invoke_compiler(file_name: &str, compiler: &str, args: &Vec<String>) -> bool
     match shell_execute(compiler, compiler_args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(&output.stdout);
+                let stderr_contents = String::from_utf8_lossy(&output.stderr);
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index e282051..93db862 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -217,35 +217,29 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
     {
         Ok(output) => {
             if output.status.success() {
-                let output_version = core::str::from_utf8(output.stdout.as_slice()).unwrap();
+                let output_version = String::from_utf8_lossy(&output.stdout);
 
                 // Clip off the newline character.  The Mess code dislikes the newline.
-                let output_version = &output_version[..output_version.len() - 1];
+                let output_version = output_version.trim();
 
                 // We use Mess here because the compiler may output some non-semantic versioned string
                 // like `0.2.11+commit.5db35ef` for a compiler version.  Mess gives us a shot at recovering
                 // the major/minor/release numbers even when the version string has extra, hard-to-parse
                 // contents.
-                match Mess::new(output_version) {
-                    Some(v) => {
-                        let mut vstr = String::new();
-                        if let Some(value) = v.nth(0) {
-                            vstr += &(value).to_string();
-                        }
-                        vstr += ".";
-                        if let Some(value) = v.nth(1) {
-                            vstr += &(value).to_string();
-                        }
-                        vstr += ".";
-                        if let Some(value) = v.nth(2) {
-                            vstr += &(value).to_string();
-                        }
-                        Versioning::new(&vstr).unwrap()
-                    }
+                let version_numbers: Vec<String> = match Mess::new(output_version) {
+                    Some(v) => (0..3)
+                        .map_while(|n| v.nth(n))
+                        .map(|value| value.to_string())
+                        .collect(),
+                    None => Vec::new(),
+                };
+
+                match Versioning::new(&version_numbers.join(".")) {
+                    Some(version) => version,
                     None => return Err(MutagenyxError::CompilerNoVersion(String::from(compiler))),
                 }
             } else {
-                let command_error = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let command_error = String::from_utf8_lossy(&output.stderr);
                 log::error!("Unable to retrieve compiler version: {}", command_error);
                 return Err(MutagenyxError::CompilerNoVersion(String::from(compiler)));
             }
@@ -326,9 +320,8 @@ fn file_is_source_file_with_vyper_from_pip(
                 if post_process_compiler_output_to_file {
                     // The compiler did not support the -o flag to output the AST to a file.  So,
                     // we get the output from stdout and write that to the output file.
-                    let ast_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
                     let mut file = std::fs::File::create(full_path_to_tmp_file.to_str().unwrap())?;
-                    write!(file, "{ast_contents}")?;
+                    file.write_all(&output.stdout)?;
                 }
                 Ok(String::from(full_path_to_tmp_file.to_str().unwrap()))
             } else {
@@ -424,8 +417,8 @@ fn file_compiles_with_pip(file_name: &str, prefs: &Preferences) -> bool {
     match shell_execute(&vyper_compiler, full_compiler_args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(&output.stdout);
+                let stderr_contents = String::from_utf8_lossy(&output.stderr);
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
@@ -471,8 +464,8 @@ fn file_compiles_with_docker(file_name: &str, prefs: &Preferences) -> bool {
     match shell_execute("docker", args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(&output.stdout);
+                let stderr_contents = String::from_utf8_lossy(&output.stderr);
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
-- 
2.43.0


From 0fda64ea6f955f2e2c3b62aa28e6ea2cf24ccb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:00 +0000
Subject: [PATCH 03/56] fix: give every compiler run a scratch directory of its
 own instead of shared names in the temporary directory

---
 .../src/json_ast_language_interface.rs        | 25 +++++----
 .../src/solidity/language_interface.rs        | 52 ++++++++++++++-----
 mutagenyx_lib/src/utility.rs                  | 39 ++++++++++++++
 mutagenyx_lib/src/vyper/language_interface.rs | 49 ++++++++++++-----
 4 files changed, 125 insertions(+), 40 deletions(-)

diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index 59b0ba4..b71918a 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -17,10 +17,10 @@ use crate::preferences::Preferences;
 use crate::pretty_printer::PrettyPrinter;
 use crate::recognizer::FileType;
 use crate::super_ast::SuperAST;
+use crate::utility::ScratchDirectory;
 use rand_pcg::Pcg64;
 use serde_json::Value;
 use std::collections::HashMap;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 
@@ -252,12 +252,18 @@ impl MutableLanguage for JSONLanguageInterface {
         ast: &SuperAST,
         prefs: &Preferences,
     ) -> bool {
-        // We will pretty print the AST to a file in the temp directory.
-        let mut source_file = env::temp_dir();
+        // We will pretty print the AST to a file in a directory of its own in the temp directory.
+        let scratch = match ScratchDirectory::new() {
+            Ok(s) => s,
+            Err(e) => {
+                log::error!("Unable to validate a mutant: {}", e);
+                return false;
+            }
+        };
 
         let original_file = PathBuf::from(original_file_name);
         let base_file_name = original_file.file_name().unwrap();
-        source_file.push(String::from(base_file_name.to_str().unwrap()));
+        let source_file = scratch.path().join(base_file_name);
 
         let mut pretty_printer = PrettyPrinter::new(4, 150);
 
@@ -268,15 +274,8 @@ impl MutableLanguage for JSONLanguageInterface {
             return false;
         }
 
-        let compile_result = self
-            .delegate
-            .mutant_compiles(source_file.to_str().unwrap(), prefs);
-
-        if std::fs::remove_file(source_file.clone()).is_err() {
-            log::debug!("Failed to remove temporary source file: {:?}", source_file);
-        }
-
-        compile_result
+        self.delegate
+            .mutant_compiles(source_file.to_str().unwrap(), prefs)
     }
 
     fn calculate_node_paths(
diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index ac17e3d..40f3ee6 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -28,13 +28,12 @@ use crate::solidity::mutators::SolidityMutatorFactory;
 use crate::solidity::node_finder::SolidityNodeFinderFactory;
 use crate::solidity::pretty_printer::SolidityNodePrinterFactory;
 use crate::super_ast::SuperAST;
-use crate::utility::shell_execute;
+use crate::utility::{shell_execute, ScratchDirectory};
 use crate::visitor::Visitor;
 use crate::Language;
 use serde_json::Value;
-use std::env;
 use std::io::Write;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::str::FromStr;
 
 /// The type that implements [`JSONLanguageDelegate`].
@@ -99,7 +98,9 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
         file_name: &str,
         prefs: &Preferences,
     ) -> Result<SuperAST, MutagenyxError> {
-        if let Ok(s) = file_is_source_file(file_name, prefs) {
+        let scratch = ScratchDirectory::new()?;
+
+        if let Ok(s) = file_is_source_file(file_name, prefs, scratch.path()) {
             let value = load_json_from_file_with_name(&s)?;
             return <SolidityLanguageSubDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
@@ -112,7 +113,10 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
     }
 
     fn file_is_language_source_file(&self, file_name: &str, prefs: &Preferences) -> bool {
-        file_is_source_file(file_name, prefs).is_ok()
+        match ScratchDirectory::new() {
+            Ok(scratch) => file_is_source_file(file_name, prefs, scratch.path()).is_ok(),
+            Err(_) => false,
+        }
     }
 
     fn implements(&self) -> Language {
@@ -245,18 +249,29 @@ fn get_solidity_compiler_from_preferences(prefs: &Preferences) -> String {
 ///
 /// * `file_name` - The path to the source file to compile.
 /// * `prefs` - The [`Preferences`] object that may contain a value for `solidity_compiler`.
-fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, MutagenyxError> {
+/// * `out_dir` - The directory in which the compiler writes the AST.
+fn file_is_source_file(
+    file_name: &str,
+    prefs: &Preferences,
+    out_dir: &Path,
+) -> Result<String, MutagenyxError> {
     let file_path = PathBuf::from_str(file_name).unwrap();
-    let base_name = file_path.file_name().unwrap().to_str().unwrap();
-    let tmp_dir = env::temp_dir();
+    let base_name = match file_path.file_name() {
+        Some(name) => name.to_str().unwrap(),
+        None => {
+            return Err(MutagenyxError::SourceDoesNotCompile(String::from(
+                file_name,
+            )))
+        }
+    };
+    let out_dir = out_dir.to_str().unwrap();
     let separator = String::from(std::path::MAIN_SEPARATOR);
-    let out_path =
-        String::from(tmp_dir.to_str().unwrap()) + separator.as_str() + base_name + "_json.ast";
+    let out_path = String::from(out_dir) + separator.as_str() + base_name + "_json.ast";
     let args = vec![
         "--ast-compact-json",
         "--overwrite",
         "-o",
-        tmp_dir.to_str().unwrap(),
+        out_dir,
         file_name,
     ];
 
@@ -303,8 +318,19 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
 /// * `file_name` - The name of the file in the file system to compile.
 /// * `prefs` - The [`Preferences`] object containing compiler settings.
 fn file_compiles(file_name: &str, prefs: &Preferences) -> bool {
-    let tmp_dir = env::temp_dir();
-    let args = vec!["--overwrite", "-o", tmp_dir.to_str().unwrap(), file_name];
+    let scratch = match ScratchDirectory::new() {
+        Ok(s) => s,
+        Err(e) => {
+            log::error!("Unable to compile {}: {}", file_name, e);
+            return false;
+        }
+    };
+    let args = vec![
+        "--overwrite",
+        "-o",
+        scratch.path().to_str().unwrap(),
+        file_name,
+    ];
 
     let solidity_compiler = get_solidity_compiler_from_preferences(prefs);
     let mut full_compiler_args: Vec<String> = get_solidity_compiler_flags_from_preferences(prefs);
diff --git a/mutagenyx_lib/src/utility.rs b/mutagenyx_lib/src/utility.rs
index a882e6a..4047b73 100644
--- a/mutagenyx_lib/src/utility.rs
+++ b/mutagenyx_lib/src/utility.rs
@@ -2,6 +2,8 @@
 //! other parts of the library.
 
 use crate::error::MutagenyxError;
+use std::io::ErrorKind;
+use std::path::{Path, PathBuf};
 use std::process::{Command, Output};
 
 /// Execute a command using the shell facility on the computer.
@@ -29,3 +31,40 @@ pub fn shell_execute(command: &str, arguments: Vec<String>) -> Result<Output, Mu
         Err(e) => Err(MutagenyxError::from(e)),
     }
 }
+
+/// A private directory in the system temporary directory. The value removes the directory and its
+/// contents when it goes out of scope.
+pub struct ScratchDirectory {
+    path: PathBuf,
+}
+
+impl ScratchDirectory {
+    /// Create a new directory that no other program or value uses.
+    pub fn new() -> Result<ScratchDirectory, MutagenyxError> {
+        let tmp_dir = std::env::temp_dir();
+        let mut counter: usize = 0;
+
+        loop {
+            let path = tmp_dir.join(format!("mutagenyx-{}-{}", std::process::id(), counter));
+            match std::fs::create_dir(&path) {
+                Ok(_) => return Ok(ScratchDirectory { path }),
+                // The directory belongs to someone else, perhaps a run that was killed.
+                Err(e) if e.kind() == ErrorKind::AlreadyExists => counter += 1,
+                Err(e) => return Err(MutagenyxError::from(e)),
+            }
+        }
+    }
+
+    /// Return the path to the directory.
+    pub fn path(&self) -> &Path {
+        &self.path
+    }
+}
+
+impl Drop for ScratchDirectory {
+    fn drop(&mut self) {
+        if let Err(e) = std::fs::remove_dir_all(&self.path) {
+            log::debug!("Failed to remove {:?}: {}", self.path, e);
+        }
+    }
+}
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 93db862..9488bed 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -21,7 +21,7 @@ use crate::preferences::Preferences;
 use crate::pretty_print_visitor::PrettyPrintVisitor;
 use crate::pretty_printer::PrettyPrinter;
 use crate::super_ast::SuperAST;
-use crate::utility::shell_execute;
+use crate::utility::{shell_execute, ScratchDirectory};
 use crate::visitor::Visitor;
 use crate::vyper::ast::VyperAST;
 use crate::vyper::commenter::VyperCommenterFactory;
@@ -30,9 +30,8 @@ use crate::vyper::mutators::VyperMutatorFactory;
 use crate::vyper::node_finder::VyperNodeFinderFactory;
 use crate::vyper::pretty_printer::VyperNodePrinterFactory;
 use serde_json::Value;
-use std::env;
 use std::io::Write;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::str::FromStr;
 use versions::{Mess, Versioning};
 
@@ -95,14 +94,16 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
         file_name: &str,
         prefs: &Preferences,
     ) -> Result<SuperAST, MutagenyxError> {
-        if let Ok(s) = file_is_source_file_with_vyper_from_pip(file_name, prefs) {
+        let scratch = ScratchDirectory::new()?;
+
+        if let Ok(s) = file_is_source_file_with_vyper_from_pip(file_name, prefs, scratch.path()) {
             let value = load_json_from_file_with_name(&s)?;
             return <VyperLanguageDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
             );
         }
 
-        if let Ok(s) = file_is_source_file_with_docker(file_name, prefs) {
+        if let Ok(s) = file_is_source_file_with_docker(file_name, prefs, scratch.path()) {
             let value = load_json_from_file_with_name(&s)?;
             return <VyperLanguageDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
@@ -115,8 +116,13 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
     }
 
     fn file_is_language_source_file(&self, file_name: &str, prefs: &Preferences) -> bool {
-        file_is_source_file_with_vyper_from_pip(file_name, prefs).is_ok()
-            || file_is_source_file_with_docker(file_name, prefs).is_ok()
+        match ScratchDirectory::new() {
+            Ok(scratch) => {
+                file_is_source_file_with_vyper_from_pip(file_name, prefs, scratch.path()).is_ok()
+                    || file_is_source_file_with_docker(file_name, prefs, scratch.path()).is_ok()
+            }
+            Err(_) => false,
+        }
     }
 
     fn implements(&self) -> Language {
@@ -260,9 +266,11 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
 ///
 /// * `file_name` - The path to the source file to compile.
 /// * `preferences` - The [`Preferences`] object that might contain a value for `vyper_compiler`.
+/// * `out_dir` - The directory in which to store the AST.
 fn file_is_source_file_with_vyper_from_pip(
     file_name: &str,
     preferences: &Preferences,
+    out_dir: &Path,
 ) -> Result<String, MutagenyxError> {
     // This code does the following:
     // * Tries to determine the Vyper compiler version.
@@ -271,9 +279,15 @@ fn file_is_source_file_with_vyper_from_pip(
     // * If successful, returns the file name of the AST.
 
     let file_path = PathBuf::from_str(file_name).unwrap();
-    let base_name = file_path.file_name().unwrap().to_str().unwrap();
-    let tmp_dir = env::temp_dir();
-    let mut full_path_to_tmp_file = PathBuf::from(&tmp_dir);
+    let base_name = match file_path.file_name() {
+        Some(name) => name.to_str().unwrap(),
+        None => {
+            return Err(MutagenyxError::SourceDoesNotCompile(String::from(
+                file_name,
+            )))
+        }
+    };
+    let mut full_path_to_tmp_file = PathBuf::from(out_dir);
 
     // The Vyper compiler did not start to support '-o outfile_name' as a command line option until
     // Vyper compiler version 3.0.0.
@@ -342,21 +356,28 @@ fn file_is_source_file_with_vyper_from_pip(
 /// # Arguments
 ///
 /// * `file_name` - The path to the source file to compile.
+/// * `out_dir` - The directory in which the compiler writes the AST.
 fn file_is_source_file_with_docker(
     file_name: &str,
     preferences: &Preferences,
+    out_dir: &Path,
 ) -> Result<String, MutagenyxError> {
     // The docker command to invoke the Vyper compiler requires the path where the source file
     // is located to map into the container /code directory.
     let full_file_path = PathBuf::from_str(file_name).unwrap();
-    let base_name = full_file_path.file_name().unwrap().to_str().unwrap();
-
-    let tmp_dir = env::temp_dir();
+    let base_name = match full_file_path.file_name() {
+        Some(name) => name.to_str().unwrap(),
+        None => {
+            return Err(MutagenyxError::SourceDoesNotCompile(String::from(
+                file_name,
+            )))
+        }
+    };
 
     let separator = String::from(std::path::MAIN_SEPARATOR);
 
     let out_path =
-        String::from(tmp_dir.to_str().unwrap()) + separator.as_str() + base_name + ".json";
+        String::from(out_dir.to_str().unwrap()) + separator.as_str() + base_name + ".json";
 
     let mut directory_name = full_file_path.clone();
 
-- 
2.43.0


From 06ded5dd86330ede98864493f1b862a2f775bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:01 +0000
Subject: [PATCH 04/56] fix: pass --allow-paths to solc as one comma separated
 list

---
 .../src/solidity/language_interface.rs        | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 40f3ee6..e0fe212 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -190,20 +190,17 @@ fn get_solidity_compiler_flags_from_preferences(prefs: &Preferences) -> Vec<Stri
                 }
             }
             if let Some(allow_paths_array) = compiler_prefs.get_array_for_key(ALLOW_PATHS_KEY) {
-                if !allow_paths_array.is_empty() {
+                // The compiler takes one comma separated list of paths.
+                let allow_paths: Vec<String> = allow_paths_array
+                    .iter()
+                    .filter_map(|value| match value {
+                        PreferenceValue::String(s) => Some(s.clone()),
+                        _ => None,
+                    })
+                    .collect();
+                if !allow_paths.is_empty() {
                     args.push(String::from("--allow-paths"));
-                    let mut i: usize = 0;
-                    while i < allow_paths_array.len() {
-                        let value = &allow_paths_array[i];
-                        if let PreferenceValue::String(s) = value {
-                            let mut path_value = s.clone();
-                            if i < (allow_paths_array.len() - 1) {
-                                path_value += ",";
-                            }
-                            args.push(path_value);
-                        }
-                        i += 1;
-                    }
+                    args.push(allow_paths.join(","));
                 }
             }
             if let Some(remappings_array) = compiler_prefs.get_array_for_key(REMAPPINGS_KEY) {
-- 
2.43.0


From 5971f7297f3eac82498db4a66ffd311e2a0b8700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:41 +0000
Subject: [PATCH 05/56] fix: report errors of the output stream when printing a
 program

---
 .../src/json_ast_language_interface.rs        | 19 +++----
 mutagenyx_lib/src/pretty_printer.rs           | 54 +++++++++++++++++++
 2 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index b71918a..e638fa8 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -14,7 +14,7 @@ use crate::mutation_visitor::*;
 use crate::mutator::*;
 use crate::permissions::Permissions;
 use crate::preferences::Preferences;
-use crate::pretty_printer::PrettyPrinter;
+use crate::pretty_printer::{ErrorRecorder, PrettyPrinter};
 use crate::recognizer::FileType;
 use crate::super_ast::SuperAST;
 use crate::utility::ScratchDirectory;
@@ -188,17 +188,9 @@ impl MutableLanguage for JSONLanguageInterface {
         file_name: &str,
         pretty_printer: &mut PrettyPrinter,
     ) -> Result<(), MutagenyxError> {
-        let actual_ast = self.recover_json_ast(ast)?;
         let mut f = std::fs::File::create(file_name)?;
 
-        let mut pretty_print_visitor = self
-            .delegate
-            .get_pretty_print_visitor(&mut f, pretty_printer);
-
-        // Traverse each node of the tree, process the node, and recover the original program.
-        ASTTraverser::traverse(actual_ast, &mut *pretty_print_visitor);
-
-        Ok(())
+        self.pretty_print_ast_to_stream(ast, &mut f, pretty_printer)
     }
 
     fn pretty_print_ast_to_stream(
@@ -208,15 +200,18 @@ impl MutableLanguage for JSONLanguageInterface {
         pretty_printer: &mut PrettyPrinter,
     ) -> Result<(), MutagenyxError> {
         let actual_ast = self.recover_json_ast(ast)?;
+        let mut recorder = ErrorRecorder::new(stream);
 
         let mut pretty_print_visitor = self
             .delegate
-            .get_pretty_print_visitor(stream, pretty_printer);
+            .get_pretty_print_visitor(&mut recorder, pretty_printer);
 
         // Traverse each node of the tree, process the node, and recover the original program.
         ASTTraverser::traverse(actual_ast, &mut *pretty_print_visitor);
+        drop(pretty_print_visitor);
 
-        Ok(())
+        // The node printers do not report errors.  Make sure that all of the program arrived.
+        recorder.finish()
     }
 
     fn get_extension_for_output_file(&self) -> &str {
diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 79de2e8..61ce41d 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -450,6 +450,60 @@ impl PrettyPrinter {
     }
 }
 
+/// A [`Write`] object that remembers the first error of the stream that it wraps. The helper
+/// functions of this module only log errors. Printing a program through this object provides a way
+/// to find out that the stream did not receive the whole program.
+pub struct ErrorRecorder<'a> {
+    stream: &'a mut dyn Write,
+    error: Option<std::io::Error>,
+}
+
+impl<'a> ErrorRecorder<'a> {
+    /// Create a new error recorder for `stream`.
+    pub fn new(stream: &'a mut dyn Write) -> ErrorRecorder<'a> {
+        ErrorRecorder {
+            stream,
+            error: None,
+        }
+    }
+
+    /// Flush the stream and return the first error that happened while writing.
+    pub fn finish(self) -> Result<(), MutagenyxError> {
+        match self.error {
+            Some(e) => Err(MutagenyxError::from(e)),
+            None => Ok(self.stream.flush()?),
+        }
+    }
+
+    /// Return an error if an earlier write to the stream failed.
+    fn check(&self) -> std::io::Result<()> {
+        match &self.error {
+            Some(e) => Err(std::io::Error::from(e.kind())),
+            None => Ok(()),
+        }
+    }
+}
+
+impl Write for ErrorRecorder<'_> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.write_all(buf)?;
+        Ok(buf.len())
+    }
+
+    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
+        self.check()?;
+        if let Err(e) = self.stream.write_all(buf) {
+            self.error = Some(e);
+        }
+        self.check()
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.check()?;
+        self.stream.flush()
+    }
+}
+
 /// Helper function to write an indent to `stream` while suppressing any errors.  The function sends
 /// errors to the log.
 ///
-- 
2.43.0


From f2e5f38e73dd0001943a1cac242452d241c9f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:33 +0000
Subject: [PATCH 06/56] fix: keep the seed of a configuration file from leaking
 into the files that follow it

---
 mutagenyx/src/mutation_generator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index cf68305..609b95a 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -113,7 +113,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     // Select a random number generator seed based on args.rng_seed. If args.rng_seed is less
     // than 0, then use a seed based off of time (we don't need cryptographic randomness).
-    let mut seed: u64 = if args.rng_seed < 0 {
+    let seed: u64 = if args.rng_seed < 0 {
         let start = SystemTime::now();
         let since_the_epoch = start.duration_since(UNIX_EPOCH);
         match since_the_epoch {
@@ -137,6 +137,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
         let mut actual_output_directory = PathBuf::from_str(&args.output_directory).unwrap();
         let mut actual_use_stdout = args.stdout;
         let mut actual_print_original = args.print_original;
+        let mut actual_seed = seed;
 
         // Try to recognize the language of the source file.  The file might be a source code file,
         // an AST file, or a configuration file.
@@ -164,7 +165,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
             // Here we update the random number generator from the configuration details seed if the
             // details have a new seed.
             if let Some(s) = configuration_details.seed {
-                seed = s;
+                actual_seed = s;
             };
 
             // Check to see if the configuration file requested a different set of mutation algorithms.
@@ -199,8 +200,8 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 let generator_params = GeneratorParameters {
                     file_name: file_to_mutate_name,
                     number_of_mutants: actual_number_of_mutants,
-                    rng_seed: seed,
-                    rng: Pcg64::seed_from_u64(seed),
+                    rng_seed: actual_seed,
+                    rng: Pcg64::seed_from_u64(actual_seed),
                     output_directory: actual_output_directory.clone(),
                     use_stdout: actual_use_stdout,
                     mutations: actual_mutations.clone(),
@@ -217,7 +218,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
             let generator_params = GeneratorParameters {
                 file_name: actual_file_name,
                 number_of_mutants: actual_number_of_mutants,
-                rng_seed: seed,
+                rng_seed: actual_seed,
                 rng: pcg.clone(),
                 output_directory: actual_output_directory,
                 use_stdout: actual_use_stdout,
-- 
2.43.0


From 79928de91acb6602086b4767462b3c933b3b0d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:34 +0000
Subject: [PATCH 07/56] fix: end with an error when no node can be mutated
 instead of choosing from an empty list for ever

---
 mutagenyx/src/mutation_generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index 609b95a..ca7c8d4 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -281,7 +281,7 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
     let node_path_map =
         language_object.calculate_node_paths(&ast, &function_mutation_permissions)?;
 
-    if mutable_nodes_table.is_empty() {
+    if mutable_nodes_table.values().all(|count| *count == 0) {
         return Err(MutagenyxError::NoMutableNode);
     }
 
-- 
2.43.0


From 638e4e30b6eda4118413cee1f0c316ee177d9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:46 +0000
Subject: [PATCH 08/56] fix: reject mutants that print the same program as the
 original or as an earlier mutant

---
 mutagenyx/src/mutation_generator.rs           | 12 ++++-
 .../src/json_ast_language_interface.rs        | 50 ++++++++++++++-----
 mutagenyx_lib/src/language_interface.rs       |  5 ++
 3 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index ca7c8d4..76ed31f 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -17,7 +17,7 @@ use rand::seq::SliceRandom;
 use rand::RngCore;
 use rand::SeedableRng;
 use rand_pcg::*;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::time::{SystemTime, UNIX_EPOCH};
 use std::{path::PathBuf, str::FromStr};
 
@@ -454,6 +454,11 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
     let mut attempts: usize = 0;
     let mut observed_mutator_results: Vec<MutatorResult> = Vec::new();
 
+    // The programs that a mutant must differ from: the original and all mutants so far.
+    let mut original_program: Vec<u8> = Vec::new();
+    pretty_print_ast_to_stream(&ast, &mut original_program)?;
+    let mut observed_programs: HashSet<Vec<u8>> = HashSet::from([original_program]);
+
     'mutation_loops: while !mutation_kinds_todo.is_empty() {
         while attempts < ATTEMPTS_TO_GENERATE_A_MUTANT {
             // Get the next mutation type.
@@ -479,7 +484,9 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
 
             // See if we have already seen this ast result before. This step prevents us from
             // making non-unique mutations.
-            if observed_mutator_results.contains(&mutate_ast_result.mutator_result) {
+            if observed_mutator_results.contains(&mutate_ast_result.mutator_result)
+                || observed_programs.contains(&mutate_ast_result.program)
+            {
                 attempts += 1;
                 continue;
             }
@@ -527,6 +534,7 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
 
             // Add the mutator result to the list of results that we have observed.
             observed_mutator_results.push(mutate_ast_result.mutator_result);
+            observed_programs.insert(mutate_ast_result.program);
 
             files_written += 1;
 
diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index e638fa8..afd5c6a 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -59,6 +59,32 @@ impl JSONLanguageInterface {
     }
 }
 
+/// Print the program represented by `ast`.
+///
+/// # Arguments
+///
+/// * `delegate` - The delegate for the language of the program.
+/// * `ast` - The JSON based AST.
+/// * `stream` - The [`Write`] object that receives the program.
+/// * `pretty_printer` - The [`PrettyPrinter`] that writes to `stream`.
+fn print_json_ast(
+    delegate: &dyn JSONLanguageDelegate,
+    ast: &Value,
+    stream: &mut dyn Write,
+    pretty_printer: &mut PrettyPrinter,
+) -> Result<(), MutagenyxError> {
+    let mut recorder = ErrorRecorder::new(stream);
+
+    let mut pretty_print_visitor = delegate.get_pretty_print_visitor(&mut recorder, pretty_printer);
+
+    // Traverse each node of the tree, process the node, and recover the original program.
+    ASTTraverser::traverse(ast, &mut *pretty_print_visitor);
+    drop(pretty_print_visitor);
+
+    // The node printers do not report errors.  Make sure that all of the program arrived.
+    recorder.finish()
+}
+
 impl MutableLanguage for JSONLanguageInterface {
     fn load_ast_from_file(
         &mut self,
@@ -163,6 +189,16 @@ impl MutableLanguage for JSONLanguageInterface {
             return Err(e);
         }
 
+        let mut mutate_ast_result = MutateASTResult::new();
+
+        // Recover the mutated program while it does not have the comment.
+        print_json_ast(
+            self.delegate.as_ref(),
+            &mutated_ast,
+            &mut mutate_ast_result.program,
+            &mut PrettyPrinter::new(4, 150),
+        )?;
+
         // We now have the path map and the index of the node we mutated in mutation_maker.mutated_node_id.
         // We can now walk down the ast to insert a comment.
         if let Some(node) = mutation_maker.mutator_comment {
@@ -174,7 +210,6 @@ impl MutableLanguage for JSONLanguageInterface {
 
         let ast = self.delegate.get_value_as_super_ast(mutated_ast)?;
 
-        let mut mutate_ast_result = MutateASTResult::new();
         mutate_ast_result.mutator_result = mutation_maker.mutation_results;
         mutate_ast_result.ast = Some(ast);
         mutate_ast_result.mutator_result.index = Some(index);
@@ -200,18 +235,7 @@ impl MutableLanguage for JSONLanguageInterface {
         pretty_printer: &mut PrettyPrinter,
     ) -> Result<(), MutagenyxError> {
         let actual_ast = self.recover_json_ast(ast)?;
-        let mut recorder = ErrorRecorder::new(stream);
-
-        let mut pretty_print_visitor = self
-            .delegate
-            .get_pretty_print_visitor(&mut recorder, pretty_printer);
-
-        // Traverse each node of the tree, process the node, and recover the original program.
-        ASTTraverser::traverse(actual_ast, &mut *pretty_print_visitor);
-        drop(pretty_print_visitor);
-
-        // The node printers do not report errors.  Make sure that all of the program arrived.
-        recorder.finish()
+        print_json_ast(self.delegate.as_ref(), actual_ast, stream, pretty_printer)
     }
 
     fn get_extension_for_output_file(&self) -> &str {
diff --git a/mutagenyx_lib/src/language_interface.rs b/mutagenyx_lib/src/language_interface.rs
index a64beb6..28596c0 100644
--- a/mutagenyx_lib/src/language_interface.rs
+++ b/mutagenyx_lib/src/language_interface.rs
@@ -26,6 +26,10 @@ pub struct MutateASTResult {
 
     /// If the mutation succeeded `ast` will contain the mutated AST.
     pub ast: Option<SuperAST>,
+
+    /// If the mutation succeeded `program` will contain the source code of the mutated AST without
+    /// the comment that describes the mutation.
+    pub program: Vec<u8>,
 }
 
 impl MutateASTResult {
@@ -34,6 +38,7 @@ impl MutateASTResult {
         MutateASTResult {
             mutator_result: MutatorResult::new(),
             ast: None,
+            program: Vec::new(),
         }
     }
 }
-- 
2.43.0


From 3680c41071e262339b65b99be23fdb2fee8df877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:47 +0000
Subject: [PATCH 09/56] fix: pretty-print every file to standard output, not
 only the first

---
 mutagenyx/src/pretty_printing.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index 7de8a2e..cbbbab3 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -44,20 +44,17 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
     for file_name in args.file {
         if args.stdout {
             let mut stdout = std::io::stdout();
-            match pretty_print_file_to_stream(&file_name, &mut stdout, &mut preferences) {
-                Ok(_) => return,
-                Err(e) => println!("Unable to pretty-print {}: {}", file_name, e),
+            if let Err(e) = pretty_print_file_to_stream(&file_name, &mut stdout, &mut preferences) {
+                println!("Unable to pretty-print {}: {}", file_name, e);
             }
         } else {
-            let original_file = PathBuf::from_str(&file_name).unwrap();
-            let original_file_str = original_file.file_name().unwrap();
             match pretty_print_file(&file_name, &args.output_directory, &mut preferences) {
                 Ok(_buf) => log::info!(
                     "Pretty-printing original file {:?} to {}",
-                    original_file_str,
+                    file_name,
                     &args.output_directory
                 ),
-                Err(e) => println!("Unable to pretty-print {:?}: {}", original_file_str, e),
+                Err(e) => println!("Unable to pretty-print {:?}: {}", file_name, e),
             }
         }
     }
-- 
2.43.0


From d375ccc7425a8445d79e1752010f2b033ac5f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:49 +0000
Subject: [PATCH 10/56] fix: go on with the other files when one file cannot be
 mutated

---
 mutagenyx/src/mutation_generator.rs | 31 ++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index 76ed31f..f8f4763 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -72,6 +72,16 @@ fn convert_function_names_to_permissions(names: &Vec<String>) -> Permissions {
     permissions
 }
 
+/// Tell the user that the tool cannot mutate a file.  The other files do not depend on the file.
+///
+/// # Arguments
+///
+/// * `file_name` - The name of the file.
+/// * `error` - The reason.
+fn report_failure(file_name: &str, error: &MutagenyxError) {
+    println!("Unable to generate mutations for {}: {}", file_name, error);
+}
+
 /// Run the mutation generator algorithm.
 ///
 /// # Arguments
@@ -142,12 +152,25 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
         // Try to recognize the language of the source file.  The file might be a source code file,
         // an AST file, or a configuration file.
         let recognizer = Recognizer::new(&mut preferences);
-        let recognize_result = recognizer.recognize_file(&actual_file_name)?;
+        let recognize_result = match recognizer.recognize_file(&actual_file_name) {
+            Ok(r) => r,
+            Err(e) => {
+                report_failure(&actual_file_name, &e);
+                continue;
+            }
+        };
 
         if recognize_result.file_type == FileType::Config {
             // If we have a config file, then we need to extract the mutation parameters from
             // the configuration file.
-            let configuration_details = ConfigurationFileDetails::new_from_file(&actual_file_name)?;
+            let configuration_details =
+                match ConfigurationFileDetails::new_from_file(&actual_file_name) {
+                    Ok(d) => d,
+                    Err(e) => {
+                        report_failure(&actual_file_name, &e);
+                        continue;
+                    }
+                };
 
             if let Some(compiler_details) = &configuration_details.compiler_details {
                 let language_key = format!["{}", recognize_result.language];
@@ -236,7 +259,9 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     // Now, for each set of parameters, invoke the mutator.
     for params in &mut generator_parameters {
-        generate_mutations(params)?;
+        if let Err(e) = generate_mutations(params) {
+            report_failure(&params.file_name, &e);
+        }
     }
 
     Ok(())
-- 
2.43.0


From 6e0e0021441edc6fe9199930ecc4b3a70958018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:56 +0000
Subject: [PATCH 11/56] fix: never overwrite an input file with a result

---
 mutagenyx/src/generator_parameters.rs |  3 ++
 mutagenyx/src/mutation_generator.rs   | 33 +++++++++++++++++---
 mutagenyx/src/pretty_printing.rs      | 43 ++++++++++++++++++++++++++-
 mutagenyx_lib/src/error.rs            |  4 +++
 4 files changed, 78 insertions(+), 5 deletions(-)

diff --git a/mutagenyx/src/generator_parameters.rs b/mutagenyx/src/generator_parameters.rs
index e6d3365..2f3b362 100644
--- a/mutagenyx/src/generator_parameters.rs
+++ b/mutagenyx/src/generator_parameters.rs
@@ -45,4 +45,7 @@ pub struct GeneratorParameters {
 
     /// Function names to mutate.
     pub functions: Vec<String>,
+
+    /// The absolute paths of all input files. The mutation generator does not overwrite them.
+    pub input_files: Vec<PathBuf>,
 }
diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index f8f4763..0ad0e68 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -3,7 +3,9 @@
 
 use crate::compiler_settings::*;
 use crate::generator_parameters::GeneratorParameters;
-use crate::pretty_printing::{pretty_print_ast, pretty_print_ast_to_stream};
+use crate::pretty_printing::{
+    check_output_path, input_file_paths, pretty_print_ast, pretty_print_ast_to_stream,
+};
 use crate::MutateCLArgs;
 use mutagenyx_lib::compiler_details::*;
 use mutagenyx_lib::config_file::*;
@@ -137,6 +139,8 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     let pcg = Pcg64::seed_from_u64(seed);
 
+    let mut input_files = input_file_paths(&args.file);
+
     for file_name in args.file {
         let mut actual_preferences = preferences.clone();
         let actual_file_name = file_name.clone();
@@ -233,6 +237,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                     save_configuration_file: args.save_config_files,
                     preferences: actual_preferences.clone(),
                     functions: actual_functions.clone(),
+                    input_files: Vec::new(),
                 };
 
                 generator_parameters.push(generator_params);
@@ -251,14 +256,23 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 save_configuration_file: args.save_config_files,
                 preferences: actual_preferences,
                 functions: actual_functions,
+                input_files: Vec::new(),
             };
 
             generator_parameters.push(generator_params);
         }
     }
 
+    // The configuration files may refer to more input files.
+    let file_names: Vec<String> = generator_parameters
+        .iter()
+        .map(|params| params.file_name.clone())
+        .collect();
+    input_files.extend(input_file_paths(&file_names));
+
     // Now, for each set of parameters, invoke the mutator.
     for params in &mut generator_parameters {
+        params.input_files = input_files.clone();
         if let Err(e) = generate_mutations(params) {
             report_failure(&params.file_name, &e);
         }
@@ -318,7 +332,12 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
             pretty_print_ast_to_stream(&ast, &mut stdout)?;
         } else {
             let original_file = PathBuf::from_str(&params.file_name).unwrap();
-            pretty_print_ast(&ast, &params.file_name, &params.output_directory)?;
+            pretty_print_ast(
+                &ast,
+                &params.file_name,
+                &params.output_directory,
+                &params.input_files,
+            )?;
             println!(
                 "Pretty-printing original file {:?} to {}",
                 original_file.file_name().unwrap(),
@@ -378,6 +397,8 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
         if params.use_stdout {
             let mut stdout = std::io::stdout();
             details.write_to_stream_as_json(&mut stdout)?;
+        } else if let Err(e) = check_output_path(&out_file_path, &params.input_files) {
+            println!("Unable to write configuration file: {}", e);
         } else {
             println!(
                 "Writing configuration file {}",
@@ -544,8 +565,12 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
 
                 let outfile = String::from(outfile_name.to_str().unwrap());
 
-                let final_file =
-                    pretty_print_ast(&mutated_ast, &outfile, &params.output_directory)?;
+                let final_file = pretty_print_ast(
+                    &mutated_ast,
+                    &outfile,
+                    &params.output_directory,
+                    &params.input_files,
+                )?;
 
                 println!(
                     "{} used to create mutant written to {}",
diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index cbbbab3..fa04e2b 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -15,6 +15,33 @@ use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::str::FromStr;
 
+/// Return the absolute paths of the files in `file_names`.
+///
+/// # Arguments
+///
+/// * `file_names` - The names of the input files.
+pub fn input_file_paths(file_names: &[String]) -> Vec<PathBuf> {
+    file_names
+        .iter()
+        .filter_map(|name| std::fs::canonicalize(name).ok())
+        .collect()
+}
+
+/// Return an error if `path` refers to one of the input files.
+///
+/// # Arguments
+///
+/// * `path` - The path to the file that the tool wants to write.
+/// * `input_files` - The input files as returned from [`input_file_paths`].
+pub fn check_output_path(path: &Path, input_files: &[PathBuf]) -> Result<(), MutagenyxError> {
+    match std::fs::canonicalize(path) {
+        Ok(p) if input_files.contains(&p) => Err(MutagenyxError::OutputReplacesInput(
+            path.display().to_string(),
+        )),
+        _ => Ok(()),
+    }
+}
+
 /// Iterate through the files in the args.file_names vector and pretty-print each file.
 ///
 /// # Arguments
@@ -40,6 +67,7 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
     };
 
     let mut preferences = compiler_paths.to_preferences();
+    let input_files = input_file_paths(&args.file);
 
     for file_name in args.file {
         if args.stdout {
@@ -48,7 +76,12 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
                 println!("Unable to pretty-print {}: {}", file_name, e);
             }
         } else {
-            match pretty_print_file(&file_name, &args.output_directory, &mut preferences) {
+            match pretty_print_file(
+                &file_name,
+                &args.output_directory,
+                &mut preferences,
+                &input_files,
+            ) {
                 Ok(_buf) => log::info!(
                     "Pretty-printing original file {:?} to {}",
                     file_name,
@@ -67,10 +100,12 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
 /// * `file_name` - The path to the file to pretty-print in the file system.
 /// * `output_directory` - The path to the location to save the pretty-printed file.
 /// * `preferences` - [`Preferences`] object.
+/// * `input_files` - The files that the function must not overwrite.
 pub fn pretty_print_file(
     file_name: &String,
     output_directory: &str,
     preferences: &mut Preferences,
+    input_files: &[PathBuf],
 ) -> Result<PathBuf, MutagenyxError> {
     // Convert the output_directory to a PathBuf
     let out_dir = PathBuf::from_str(output_directory).unwrap();
@@ -100,6 +135,8 @@ pub fn pretty_print_file(
     };
     let outfile_name = out_dir.join(String::from(base_file_name.to_str().unwrap()) + extension);
 
+    check_output_path(&outfile_name, input_files)?;
+
     let outfile = String::from(outfile_name.to_str().unwrap());
 
     // Try to create the output directory:
@@ -151,10 +188,12 @@ pub fn pretty_print_file_to_stream(
 /// * `ast` - Any reference to a [`SuperAST`] abstract syntax tree.
 /// * `file_name` - A reference to the text of the file name. May be a complete path.
 /// * `output_dir` - The directory in which to place the pretty-printed ast.
+/// * `input_files` - The files that the function must not overwrite.
 pub fn pretty_print_ast(
     ast: &SuperAST,
     file_name: &str,
     output_dir: &Path,
+    input_files: &[PathBuf],
 ) -> Result<PathBuf, MutagenyxError> {
     let language = language_for_ast(ast);
 
@@ -172,6 +211,8 @@ pub fn pretty_print_ast(
 
     let outfile_name = output_dir.join(String::from(base_file_name.to_str().unwrap()) + extension);
 
+    check_output_path(&outfile_name, input_files)?;
+
     let outfile = String::from(outfile_name.to_str().unwrap());
 
     // Try to create the output directory:
diff --git a/mutagenyx_lib/src/error.rs b/mutagenyx_lib/src/error.rs
index 54d04ba..3a48500 100644
--- a/mutagenyx_lib/src/error.rs
+++ b/mutagenyx_lib/src/error.rs
@@ -86,6 +86,10 @@ pub enum MutagenyxError {
     #[error("Configuration file {0} contains an invalid value for the language key: {1}")]
     ConfigFileUnsupportedLanguage(String, String),
 
+    /// An error indicating that a result of the tool would replace one of the input files.
+    #[error("Refusing to overwrite input file {0}")]
+    OutputReplacesInput(String),
+
     /// An error indicating an attempt to work with system time failed.
     #[error("Request for or operation on system time failed")]
     SystemTime,
-- 
2.43.0


From be6e406df4751de34855f3eede4e554951016305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 12/56] fix: choose Assignment values for int128 to int256 and
 leave array assignments alone instead of panicking

---
 mutagenyx_lib/src/solidity/mutators.rs | 52 ++++++++++++++++++--------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index e547ad9..c554cf2 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -499,6 +499,18 @@ impl Mutator<SolidityAST> for UnaryOpMutator {
     }
 }
 
+/// Return the size in bits of the integer type named by `type_string`, or None if the string does
+/// not name an integer type (`uint256[] memory` and `uint256[3] storage ref` do not).
+///
+/// # Arguments
+///
+/// * `type_string` - The text of the type from a typeDescriptions node.
+/// * `prefix` - The text before the size: `int` or `uint`.
+fn integer_type_size(type_string: &str, prefix: &str) -> Option<u32> {
+    let size = type_string.strip_prefix(prefix)?.parse::<u32>().ok()?;
+    (8..=256).contains(&size).then_some(size)
+}
+
 /// Implements the assignment mutation algorithm.
 ///
 /// For a given Assigment expression, the algorithm replaces the right-hand side of the expression
@@ -541,13 +553,9 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     }
                 };
 
-                if type_string.len() < 3 {
-                    return false;
-                }
-
-                let first_three_chars = &type_string[..3];
-
-                return matches!(first_three_chars, "uin" | "int" | "boo");
+                return type_string == "bool"
+                    || integer_type_size(type_string, "int").is_some()
+                    || integer_type_size(type_string, "uint").is_some();
             }
         }
         false
@@ -599,21 +607,29 @@ impl Mutator<SolidityAST> for AssignmentMutator {
             ));
         };
 
-        let first_three_chars = &type_string[..3];
+        let first_three_chars = type_string.get(..3).unwrap_or("");
 
         match first_three_chars {
             "int" => {
                 hasher.update("int".as_bytes())?;
 
-                let type_size_str = &type_string[3..];
-                let mut type_size = type_size_str.parse::<u32>().unwrap();
+                let mut type_size = match integer_type_size(type_string, "int") {
+                    Some(size) => size,
+                    None => {
+                        return Err(MutagenyxError::MalformedNode(
+                            String::from("Assignment"),
+                            String::from("typeString"),
+                        ))
+                    }
+                };
 
                 if type_size > 128 {
                     type_size = 128;
                 }
 
-                let lower_bound = -(2_i128.pow(type_size - 1));
-                let upper_bound = 2_i128.pow(type_size - 1);
+                // 2.pow(127) does not fit in an i128, so shift the limits of the type instead.
+                let lower_bound = i128::MIN >> (128 - type_size);
+                let upper_bound = i128::MAX >> (128 - type_size);
                 let replacement_value = rand.gen_range(lower_bound, upper_bound);
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
@@ -628,8 +644,15 @@ impl Mutator<SolidityAST> for AssignmentMutator {
             "uin" => {
                 hasher.update("uin".as_bytes())?;
 
-                let type_size_str = &type_string[4..];
-                let mut type_size = type_size_str.parse::<u32>().unwrap();
+                let mut type_size = match integer_type_size(type_string, "uint") {
+                    Some(size) => size,
+                    None => {
+                        return Err(MutagenyxError::MalformedNode(
+                            String::from("Assignment"),
+                            String::from("typeString"),
+                        ))
+                    }
+                };
 
                 if type_size > 128 {
                     type_size = 128;
@@ -657,7 +680,6 @@ impl Mutator<SolidityAST> for AssignmentMutator {
             "boo" => {
                 hasher.update("boo".as_bytes())?;
 
-                assert_eq!(type_string, "bool");
                 let replacement_value: i8 = rand.gen_range(0, 1);
                 let bool_literal: bool = replacement_value != 0;
 
-- 
2.43.0


From cbefc863e8c14959227878455d61a353ef0e98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:15 +0000
Subject: [PATCH 13/56] fix: do not offer nodes to FunctionCall, SwapLines and
 UncheckedBlock in which every choice is excluded

---
 mutagenyx_lib/src/solidity/mutators.rs | 89 ++++++--------------------
 1 file changed, 20 insertions(+), 69 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index c554cf2..5360729 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -899,25 +899,11 @@ impl Mutator<SolidityAST> for FunctionCallMutator {
             if node_type == "FunctionCall" {
                 if let Some(arguments_node) = node.get("arguments") {
                     if let Some(arguments_array) = arguments_node.as_array() {
-                        if !arguments_array.is_empty() {
-                            let mut has_literal = false;
-                            for value in arguments_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Literal" {
-                                        has_literal = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            if has_literal && arguments_array.len() > 1 {
-                                return true;
-                            } else if has_literal {
-                                return false;
-                            }
-
-                            return true;
-                        }
+                        // The mutator never replaces the call with a Literal, so it needs an
+                        // argument that is not one.
+                        return arguments_array
+                            .iter()
+                            .any(|value| value.get_str_for_key("nodeType") != Some("Literal"));
                     }
                 }
             }
@@ -1530,25 +1516,13 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
             if node_type == "Block" {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
-                        if statements_array.len() >= 2 {
-                            let mut found_return_statement = false;
-                            for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || statements_array.len() >= 3 {
-                                return true;
-                            }
-                        }
+                        // The mutator never swaps a return statement, so it needs two
+                        // statements that are not return statements.
+                        let swappable_statements = statements_array
+                            .iter()
+                            .filter(|value| value.get_str_for_key("nodeType") != Some("Return"))
+                            .count();
+                        return swappable_statements >= 2;
                     }
                 }
             }
@@ -1868,37 +1842,14 @@ impl Mutator<SolidityAST> for SolidityUncheckedBlockMutator {
             if node_type == "Block" {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
-                        if !statements_array.is_empty() {
-                            let mut have_return_statement = false;
-                            let mut have_unchecked_block_statement = false;
-                            let mut required_length: usize = 1;
-                            for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if (!have_return_statement) && value_node_type == "Return" {
-                                        have_return_statement = true;
-                                        required_length += 1;
-                                    }
-                                    if (!have_unchecked_block_statement)
-                                        && value_node_type == "UncheckedBlock"
-                                    {
-                                        have_unchecked_block_statement = true;
-                                        required_length += 1;
-                                    }
-
-                                    if have_return_statement && have_unchecked_block_statement {
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the Block node has a return statement and/or an UncheckedBlock statement,
-                            // we need at least one more statement than block + unchecked block
-                            // in order for the algorithm to work.  We do not wrap a return statement
-                            // or an unchecked block statement in unchecked{}.
-                            if statements_array.len() >= required_length {
-                                return true;
-                            }
-                        }
+                        // We do not wrap a return statement or an unchecked block statement in
+                        // unchecked{}, so the Block needs a statement that is neither.
+                        return statements_array.iter().any(|value| {
+                            !matches!(
+                                value.get_str_for_key("nodeType"),
+                                Some("Return") | Some("UncheckedBlock")
+                            )
+                        });
                     }
                 }
             }
-- 
2.43.0


From 062e5e6bdfc06c425bb26d55f3b8932060ff3cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:20 +0000
Subject: [PATCH 14/56] fix: put a commented block back under its own key, not
 always under body

---
 mutagenyx_lib/src/solidity/commenter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/commenter.rs b/mutagenyx_lib/src/solidity/commenter.rs
index 0dfda92..c5a0ab1 100644
--- a/mutagenyx_lib/src/solidity/commenter.rs
+++ b/mutagenyx_lib/src/solidity/commenter.rs
@@ -56,7 +56,7 @@ fn insert_comment_into_node_with_key(
                         {
                             statements_array.insert(0, comment_node);
                         }
-                        node.set_node_for_key("body", body_node);
+                        node.set_node_for_key(key, body_node);
                         return true;
                     }
                 }
-- 
2.43.0


From 5ba27f033c57bfd3c8a7f2934ff15320c8adc7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:21 +0000
Subject: [PATCH 15/56] fix: comment on Solidity mutations outside of contracts

---
 mutagenyx_lib/src/solidity/commenter.rs   | 2 ++
 mutagenyx_lib/src/solidity/node_finder.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/commenter.rs b/mutagenyx_lib/src/solidity/commenter.rs
index c5a0ab1..2a27763 100644
--- a/mutagenyx_lib/src/solidity/commenter.rs
+++ b/mutagenyx_lib/src/solidity/commenter.rs
@@ -261,6 +261,8 @@ impl CommenterFactory<SolidityAST> for SolidityCommenterFactory {
                 "FunctionDefinition" => Box::new(FunctionDefinitionCommenter {}),
                 "IfStatement" => Box::new(IfStatementCommenter {}),
                 "ModifierDefinition" => Box::new(ModifierDefinitionCommenter {}),
+                // Like a contract, the source unit has its members in a `nodes` array.
+                "SourceUnit" => Box::new(ContractDefinitionCommenter {}),
                 "TryCatchClause" => Box::new(TryCatchClauseCommenter {}),
                 "UncheckedBlock" => Box::new(GenericBlockCommenter {}),
                 "WhileStatement" => Box::new(WhileStatementCommenter {}),
diff --git a/mutagenyx_lib/src/solidity/node_finder.rs b/mutagenyx_lib/src/solidity/node_finder.rs
index a505161..2ff41db 100644
--- a/mutagenyx_lib/src/solidity/node_finder.rs
+++ b/mutagenyx_lib/src/solidity/node_finder.rs
@@ -216,6 +216,8 @@ impl NodeFinderFactory<SolidityAST> for SolidityNodeFinderFactory {
                 "FunctionDefinition" => Box::new(FunctionDefinitionFinder {}),
                 "IfStatement" => Box::new(IfStatementFinder {}),
                 "ModifierDefinition" => Box::new(ModifierDefinitionFinder {}),
+                // Like a contract, the source unit has its members in a `nodes` array.
+                "SourceUnit" => Box::new(ContractDefinitionFinder {}),
                 "TryCatchClause" => Box::new(TryCatchClauseFinder {}),
                 "UncheckedBlock" => Box::new(GenericBlockFinder {}),
                 "WhileStatement" => Box::new(WhileStatementFinder {}),
-- 
2.43.0


From 52839c5216a6ac4f0fb4598773a898c0f1301fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:23 +0000
Subject: [PATCH 16/56] fix: keep every line of a deleted Solidity statement
 inside the comment

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 750846e..9215c2f 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1719,7 +1719,17 @@ impl NodePrinter<SolidityAST> for CommentPrinter {
         }
 
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            // The node may take more than one line and each of the lines must be a comment.
+            let mut node_contents = Vec::new();
+            let mut node_printer = PrettyPrinter::new(4, 150);
+            traverse_sub_node_and_print(
+                &mut node_printer,
+                &mut node_contents,
+                factory,
+                value_node,
+            );
+            let value_str = String::from_utf8_lossy(&node_contents);
+            write_flowable_text(printer, stream, &value_str, "// ");
         }
     }
 }
-- 
2.43.0


From 8d61278323f47a1461fcc31d9646aa7749e184f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:24 +0000
Subject: [PATCH 17/56] fix: restrict mutations to functions by the names of
 functions only

---
 mutagenyx_lib/src/solidity/language_interface.rs | 7 ++++++-
 mutagenyx_lib/src/vyper/language_interface.rs    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index e0fe212..d86f565 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -161,7 +161,12 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
 
     fn get_namer(&self) -> Box<dyn Namer<Value>> {
         Box::new(JSONNamer::new(|v| {
-            v.get_str_for_key("name").map(String::from)
+            // Only functions have names that matter: the permissions for a function must not
+            // apply to variables, contracts, or anything else that happens to have the same name.
+            match v.get_str_for_key("nodeType") {
+                Some("FunctionDefinition") => v.get_str_for_key("name").map(String::from),
+                _ => None,
+            }
         }))
     }
 }
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 9488bed..2a01fbc 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -167,7 +167,12 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
 
     fn get_namer(&self) -> Box<dyn Namer<Value>> {
         Box::new(JSONNamer::new(|v| {
-            v.get_str_for_key("name").map(String::from)
+            // Only functions have names that matter: the permissions for a function must not
+            // apply to variables, structs, or anything else that happens to have the same name.
+            match v.get_str_for_key("ast_type") {
+                Some("FunctionDef") => v.get_str_for_key("name").map(String::from),
+                _ => None,
+            }
         }))
     }
 }
-- 
2.43.0


From 62526b0f07beed403d8f4ad5bbfc9c34e9bf2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:49 +0000
Subject: [PATCH 18/56] fix: do not offer Vyper blocks with fewer than two
 swappable statements to SwapLines

---
 mutagenyx_lib/src/vyper/mutators.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index b6b93f7..e93217d 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1589,25 +1589,13 @@ impl Mutator<VyperAST> for SwapLinesMutator {
             if ast_type == "FunctionDef" || ast_type == "For" || ast_type == "If" {
                 if let Some(body_node) = node.get(&self.key) {
                     if let Some(body_array) = body_node.as_array() {
-                        if body_array.len() >= 2 {
-                            let mut found_return_statement = false;
-                            for value in body_array {
-                                if let Some(value_ast_type) = value.get_str_for_key("ast_type") {
-                                    if value_ast_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || body_array.len() >= 3 {
-                                return true;
-                            }
-                        }
+                        // The mutator never swaps a return statement, so it needs two
+                        // statements that are not return statements.
+                        let swappable_statements = body_array
+                            .iter()
+                            .filter(|value| value.get_str_for_key("ast_type") != Some("Return"))
+                            .count();
+                        return swappable_statements >= 2;
                     }
                 }
             }
-- 
2.43.0


From 847d45bcc3b401d2d11b35115b7b3c126063b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:51 +0000
Subject: [PATCH 19/56] fix: let SwapOperatorArguments pass over Vyper
 operators it does not know instead of panicking

---
 mutagenyx_lib/src/vyper/mutators.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index e93217d..ad33d35 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1469,9 +1469,8 @@ impl Mutator<VyperAST> for SwapOperatorArgumentsMutator {
             if ast_type == "BinOp" || ast_type == "BoolOp" || ast_type == "Compare" {
                 if let Some(op_node) = node.get("op") {
                     if let Some(op_string) = op_node.get_str_for_key("ast_type") {
-                        let converted_operator = self.operator_map[&op_string];
-                        if self.valid_operators.contains(&converted_operator) {
-                            return true;
+                        if let Some(converted_operator) = self.operator_map.get(op_string) {
+                            return self.valid_operators.contains(converted_operator);
                         }
                     }
                 }
-- 
2.43.0


From ffde1aa985e3d0c6b1900c5b9e32d890f8dde8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:52 +0000
Subject: [PATCH 20/56] fix: delete the only statement of Vyper functions that
 return other types instead of giving up the whole file

---
 mutagenyx_lib/src/vyper/mutators.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index ad33d35..288f9b0 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -726,7 +726,7 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
                         if let Some(ast_type_str) = returns_node.get_str_for_key("ast_type") {
                             if ast_type_str == "Name" {
                                 if let Some(id_str) = returns_node.get_str_for_key("id") {
-                                    match &id_str[..3] {
+                                    match id_str.get(..3).unwrap_or(id_str) {
                                         "boo" => {
                                             let random_boolean = rand.next_u64() % 2_u64;
                                             let actual_boolean = matches!(random_boolean, 1);
@@ -848,10 +848,20 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
 
                                             body_array.push(return_node);
                                         }
-                                        unrecognized_type => {
-                                            return Err(MutagenyxError::UnrecognizedLanguageType(
-                                                String::from(unrecognized_type),
-                                            ))
+                                        _ => {
+                                            // We have no value for the other types (address,
+                                            // bytes32, structs, ...).
+                                            let new_node = match new_pass_node() {
+                                                Ok(node) => node,
+                                                Err(_e) => {
+                                                    return Err(
+                                                        MutagenyxError::UnableToGenerateNode(
+                                                            "pass",
+                                                        ),
+                                                    )
+                                                }
+                                            };
+                                            body_array.push(new_node);
                                         }
                                     }
                                 }
-- 
2.43.0


From 0659a6885c786231833a5af9875bffa568c9e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:54 +0000
Subject: [PATCH 21/56] fix: choose the arguments SwapFunctionArguments swaps
 by the seed alone

---
 mutagenyx_lib/src/solidity/mutators.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 5360729..16fe917 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -18,7 +18,7 @@ use rand::seq::SliceRandom;
 use rand::{Rng, RngCore};
 use rand_pcg::*;
 use serde_json::json;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 
 /// Return a new integer literal node representing an integer literal number.
@@ -1052,7 +1052,8 @@ impl Mutator<SolidityAST> for SwapFunctionArgumentsMutator {
         // nodes of the same type so that we can swap them.
         if let Some(mut arguments_node) = node.take_value_for_key("arguments") {
             if let Some(arguments_array) = arguments_node.as_array_mut() {
-                let mut arg_map: HashMap<&str, Vec<IndexedNode>> = HashMap::new();
+                // The map needs an order that does not change from run to run.
+                let mut arg_map: BTreeMap<&str, Vec<IndexedNode>> = BTreeMap::new();
                 for (index, value) in arguments_array.iter().enumerate() {
                     if let Some(type_descriptions_node) = value.get("typeDescriptions") {
                         if let Some(type_string) =
-- 
2.43.0


From 6fd45227633cba034060a59270db5c7627fcc53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 22/56] fix: let the Integer mutator handle all notations and
 sizes of Solidity integers

---
 mutagenyx_lib/src/solidity/mutators.rs | 36 +++++++++++++++++++-------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 16fe917..06a2ced 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -12,7 +12,7 @@ use crate::solidity::ast::{SolidityAST, SolidityASTApi};
 use crate::solidity::pretty_printer::SolidityNodePrinterFactory;
 use crate::PrettyPrinter;
 use hex;
-use num::Integer;
+use num::{BigInt, Integer};
 use openssl::hash::{Hasher, MessageDigest};
 use rand::seq::SliceRandom;
 use rand::{Rng, RngCore};
@@ -1275,6 +1275,29 @@ impl Mutator<SolidityAST> for IfStatementMutator {
     }
 }
 
+/// Return the value of an integer literal in any of the Solidity notations (`10`, `1_000`, `0x1f`,
+/// and `2e18`), or None if `text` is not an integer.
+///
+/// # Arguments
+///
+/// * `text` - The text of the literal.
+fn integer_literal_value(text: &str) -> Option<BigInt> {
+    let digits = text.replace('_', "");
+
+    if let Some(hex_digits) = digits.strip_prefix("0x") {
+        return BigInt::parse_bytes(hex_digits.as_bytes(), 16);
+    }
+
+    if let Some((mantissa, exponent)) = digits.split_once(['e', 'E']) {
+        let mantissa = mantissa.parse::<BigInt>().ok()?;
+        let exponent = exponent.parse::<u32>().ok()?;
+        // No integer type of Solidity holds more than 78 digits.
+        return (exponent <= 78).then(|| mantissa * BigInt::from(10).pow(exponent));
+    }
+
+    digits.parse::<BigInt>().ok()
+}
+
 /// Implement the Integer mutation algorithm:
 ///
 /// Randomly selects one from the following:
@@ -1301,12 +1324,7 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(kind) = node.get_str_for_key("kind") {
                     if kind == "number" {
                         if let Some(value) = node.get_str_for_key("value") {
-                            let text = String::from(value);
-                            // Search for a . in the string which indicates a floating point number.
-                            let find_result = text.find('.');
-                            if find_result.is_none() {
-                                return true;
-                            }
+                            return integer_literal_value(value).is_some();
                         }
                     }
                 }
@@ -1338,7 +1356,7 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(value) = node.get_str_for_key("value") {
                     let value_string = value.to_string();
                     original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
+                    let mut my_integer = integer_literal_value(value).unwrap_or_default();
                     my_integer += 1;
                     new_value_s = my_integer.to_string();
                     node.set_str_for_key("value", my_integer.to_string().as_str());
@@ -1350,7 +1368,7 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(value) = node.get_str_for_key("value") {
                     let value_string = value.to_string();
                     original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
+                    let mut my_integer = integer_literal_value(value).unwrap_or_default();
                     my_integer -= 1;
                     new_value_s = my_integer.to_string();
                     node.set_str_for_key("value", my_integer.to_string().as_str());
-- 
2.43.0


From 15968152c46ab2d6d79009917c07c895f806caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:07 +0000
Subject: [PATCH 23/56] fix: compare mutants without comments and empty lines

---
 mutagenyx/src/mutation_generator.rs | 30 ++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index 0ad0e68..3c373c4 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -281,6 +281,28 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
     Ok(())
 }
 
+/// Return the text of a printed program without the lines that do not belong to the program: lines
+/// with comments and empty lines.  Programs that only differ in such lines are the same program.
+///
+/// # Arguments
+///
+/// * `program` - The text of the program.
+fn program_without_comments(program: &[u8]) -> Vec<u8> {
+    program
+        .split(|c| *c == b'\n')
+        .map(|line| {
+            let start = line.iter().position(|c| *c != b' ').unwrap_or(line.len());
+            let end = line.iter().rposition(|c| *c != b' ').map_or(start, |i| i + 1);
+            (&line[start..end], &line[..end])
+        })
+        .filter(|(text, _)| {
+            !text.is_empty() && !text.starts_with(b"//") && !text.starts_with(b"#")
+        })
+        .map(|(_, line)| line)
+        .collect::<Vec<&[u8]>>()
+        .join(&b'\n')
+}
+
 /// An upper bound on the number times to try to generate a particular mutant for an input file.
 static ATTEMPTS_TO_GENERATE_A_MUTANT: usize = 50;
 
@@ -503,7 +525,8 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
     // The programs that a mutant must differ from: the original and all mutants so far.
     let mut original_program: Vec<u8> = Vec::new();
     pretty_print_ast_to_stream(&ast, &mut original_program)?;
-    let mut observed_programs: HashSet<Vec<u8>> = HashSet::from([original_program]);
+    let mut observed_programs: HashSet<Vec<u8>> =
+        HashSet::from([program_without_comments(&original_program)]);
 
     'mutation_loops: while !mutation_kinds_todo.is_empty() {
         while attempts < ATTEMPTS_TO_GENERATE_A_MUTANT {
@@ -530,8 +553,9 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
 
             // See if we have already seen this ast result before. This step prevents us from
             // making non-unique mutations.
+            let mutated_program = program_without_comments(&mutate_ast_result.program);
             if observed_mutator_results.contains(&mutate_ast_result.mutator_result)
-                || observed_programs.contains(&mutate_ast_result.program)
+                || observed_programs.contains(&mutated_program)
             {
                 attempts += 1;
                 continue;
@@ -584,7 +608,7 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
 
             // Add the mutator result to the list of results that we have observed.
             observed_mutator_results.push(mutate_ast_result.mutator_result);
-            observed_programs.insert(mutate_ast_result.program);
+            observed_programs.insert(mutated_program);
 
             files_written += 1;
 
-- 
2.43.0


From 025a10ffe1554d9ddf6a1dd4857afea74a66c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:22 +0000
Subject: [PATCH 24/56] fix: do not break long Vyper statements into lines

---
 mutagenyx_lib/src/pretty_printer.rs           | 10 +++++++++-
 mutagenyx_lib/src/vyper/language_interface.rs |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 61ce41d..b74ca26 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -15,6 +15,9 @@ pub struct PrettyPrinter {
     pub indent: usize,
     pub newline: String,
     pub max_indent: usize,
+
+    /// True if the printer may start a new line between any two tokens of the program.
+    pub can_break_lines: bool,
 }
 
 impl PrettyPrinter {
@@ -43,6 +46,7 @@ impl PrettyPrinter {
             indent: 0,
             newline: String::from(newline),
             max_indent: max_indent as usize,
+            can_break_lines: true,
         }
     }
 
@@ -160,7 +164,7 @@ impl PrettyPrinter {
     ///
     /// * `stream` - The object that implements the [`Write`] trait.
     pub fn write_space(&mut self, stream: &mut dyn Write) -> Result<(), MutagenyxError> {
-        if self.column == self.page_width {
+        if self.can_break_lines && self.column == self.page_width {
             self.write_newline(stream)?;
             self.write_indent(stream)?;
         }
@@ -190,6 +194,10 @@ impl PrettyPrinter {
         stream: &mut dyn Write,
         token: &str,
     ) -> Result<(), MutagenyxError> {
+        if !self.can_break_lines {
+            return self.write_basic_string(stream, token);
+        }
+
         if self.column > self.page_width {
             // We have overreached on a previous write. Go to a newline.
             self.write_newline(stream)?;
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 2a01fbc..77180df 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -75,6 +75,9 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
         stream: &'a mut dyn Write,
         printer: &'a mut PrettyPrinter,
     ) -> Box<dyn Visitor<Value> + 'a> {
+        // A line break ends a statement in Vyper, so long lines have to stay long.
+        printer.can_break_lines = false;
+
         return Box::new(PrettyPrintVisitor::new(
             stream,
             printer,
-- 
2.43.0


From 65ecd818a57fbf47da6e3e420b2bf55d91a824c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:21 +0000
Subject: [PATCH 25/56] fix: escape quotes and backslashes in string literals

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 8 ++++++--
 mutagenyx_lib/src/vyper/pretty_printer.rs    | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 9215c2f..a755a86 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -238,10 +238,13 @@ fn unencode_string(s: &str) -> String {
                     unencoded_s.push('r');
                 }
                 _ => {
-                    let converted_char = format!("\\x{:x}", c_code);
+                    let converted_char = format!("\\x{:02x}", c_code);
                     unencoded_s += converted_char.as_str();
                 }
             }
+        } else if c == '"' || c == '\\' {
+            unencoded_s.push('\\');
+            unencoded_s.push(c);
         } else if (32..127).contains(&c_code) {
             unencoded_s.push(c);
         } else {
@@ -963,7 +966,8 @@ impl NodePrinter<SolidityAST> for LiteralPrinter {
                     write_string(printer, stream, &unencoded_string);
                 } else if kind == "unicodeString" {
                     write_token(printer, stream, "unicode");
-                    write_string(printer, stream, value);
+                    let escaped_string = value.replace('\\', "\\\\").replace('"', "\\\"");
+                    write_string(printer, stream, &escaped_string.replace('\n', "\\n"));
                 } else {
                     write_token(printer, stream, value);
                 }
diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 2f85f28..418113f 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -814,7 +814,8 @@ impl NodePrinter<VyperAST> for StrPrinter {
         node: &VyperAST,
     ) {
         if let Some(value_str) = node.get_str_for_key("value") {
-            write_string(printer, stream, value_str);
+            let escaped_string = value_str.replace('\\', "\\\\").replace('"', "\\\"");
+            write_string(printer, stream, &escaped_string.replace('\n', "\\n"));
         }
     }
 }
-- 
2.43.0


From b4085507381dcb3ddedba460faa24e128e984dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:33 +0000
Subject: [PATCH 26/56] fix: do not pass --stop-after to solc twice

---
 mutagenyx_lib/src/solidity/language_interface.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index d86f565..9e4a7b3 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -345,6 +345,12 @@ fn file_compiles(file_name: &str, prefs: &Preferences) -> bool {
         return true;
     }
 
+    // The compiler accepts '--stop-after' only once. If the user requested it, then the run above
+    // was all that we can try.
+    if full_compiler_args.iter().any(|arg| arg == "--stop-after") {
+        return false;
+    }
+
     // Compilation failed, try one more time, this time we inject '--stop-after parsing' into the command
     // line for the compiler.
     full_compiler_args.push(String::from("--stop-after"));
-- 
2.43.0


From bf5bd4abd978e813f745fdb8eb7258e75c2b77a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:09 +0000
Subject: [PATCH 27/56] fix: do not take an output file for a new file when its
 path cannot be examined

---
 mutagenyx/src/pretty_printing.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index fa04e2b..8e20820 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -23,7 +23,11 @@ use std::str::FromStr;
 pub fn input_file_paths(file_names: &[String]) -> Vec<PathBuf> {
     file_names
         .iter()
-        .filter_map(|name| std::fs::canonicalize(name).ok())
+        .filter_map(|name| {
+            std::fs::canonicalize(name)
+                .or_else(|_| std::path::absolute(name))
+                .ok()
+        })
         .collect()
 }
 
@@ -38,7 +42,10 @@ pub fn check_output_path(path: &Path, input_files: &[PathBuf]) -> Result<(), Mut
         Ok(p) if input_files.contains(&p) => Err(MutagenyxError::OutputReplacesInput(
             path.display().to_string(),
         )),
-        _ => Ok(()),
+        Ok(_) => Ok(()),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
+        // Without the real path we cannot be sure that the file is not an input.
+        Err(e) => Err(MutagenyxError::from(e)),
     }
 }
 
-- 
2.43.0


From 89a0aaad3a444f76877582704068728b7e424ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:00 +0000
Subject: [PATCH 28/56] fix: print hex strings and strings that are not text,
 and escape other characters as bytes

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 91 +++++++++++++-------
 1 file changed, 61 insertions(+), 30 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index a755a86..cd0b17f 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -207,11 +207,6 @@ fn unencode_string(s: &str) -> String {
 
         if c_code < 32 {
             match c_code {
-                8 => {
-                    // backspace
-                    unencoded_s.push('\\');
-                    unencoded_s.push('b');
-                }
                 9 => {
                     // horizontal tab
                     unencoded_s.push('\\');
@@ -222,16 +217,6 @@ fn unencode_string(s: &str) -> String {
                     unencoded_s.push('\\');
                     unencoded_s.push('n');
                 }
-                11 => {
-                    // vertical tab
-                    unencoded_s.push('\\');
-                    unencoded_s.push('v');
-                }
-                12 => {
-                    // form feed
-                    unencoded_s.push('\\');
-                    unencoded_s.push('f');
-                }
                 13 => {
                     // carriage return
                     unencoded_s.push('\\');
@@ -248,9 +233,50 @@ fn unencode_string(s: &str) -> String {
         } else if (32..127).contains(&c_code) {
             unencoded_s.push(c);
         } else {
-            let converted_char = format!("\\u{:x}", c_code);
-            unencoded_s += converted_char.as_str();
+            // Escape each byte, a \\u escape has room for four digits only.
+            let mut bytes = [0; 4];
+            for byte in c.encode_utf8(&mut bytes).bytes() {
+                let converted_byte = format!("\\x{:02x}", byte);
+                unencoded_s += converted_byte.as_str();
+            }
+        }
+    }
+
+    unencoded_s
+}
+
+/// Change the characters that may not appear in a Solidity unicode string into an escaped form.
+///
+/// # Arguments
+///
+/// * `s` - The string to escape.
+fn escape_unicode_string(s: &str) -> String {
+    let mut escaped_s = String::new();
+
+    for c in s.chars() {
+        if c.is_ascii() || matches!(c, '\u{85}' | '\u{2028}' | '\u{2029}') {
+            escaped_s += unencode_string(&c.to_string()).as_str();
+        } else {
+            escaped_s.push(c);
+        }
+    }
+
+    escaped_s
+}
+
+/// Change the hexadecimal digits of a string that is not valid UTF-8 into escaped characters.
+///
+/// # Arguments
+///
+/// * `digits` - The hexadecimal digits of the bytes of the string.
+fn unencode_hex_value(digits: &str) -> String {
+    let mut unencoded_s = String::new();
+
+    for (i, digit) in digits.chars().enumerate() {
+        if i % 2 == 0 {
+            unencoded_s += "\\x";
         }
+        unencoded_s.push(digit);
     }
 
     unencoded_s
@@ -959,21 +985,24 @@ impl NodePrinter<SolidityAST> for LiteralPrinter {
         _factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
-        if let Some(value) = node.get_str_for_key("value") {
-            if let Some(kind) = node.get_str_for_key("kind") {
-                if kind == "string" {
-                    let unencoded_string = unencode_string(value);
-                    write_string(printer, stream, &unencoded_string);
-                } else if kind == "unicodeString" {
-                    write_token(printer, stream, "unicode");
-                    let escaped_string = value.replace('\\', "\\\\").replace('"', "\\\"");
-                    write_string(printer, stream, &escaped_string.replace('\n', "\\n"));
-                } else {
-                    write_token(printer, stream, value);
-                }
+        let kind = node.get_str_for_key("kind").unwrap_or_default();
+        let hex_value = node.get_str_for_key("hexValue").unwrap_or_default();
+
+        if kind == "hexString" {
+            write_token(printer, stream, &format!("hex\"{}\"", hex_value));
+        } else if let Some(value) = node.get_str_for_key("value") {
+            if kind == "string" {
+                let unencoded_string = unencode_string(value);
+                write_string(printer, stream, &unencoded_string);
+            } else if kind == "unicodeString" {
+                let escaped_string = escape_unicode_string(value);
+                write_token(printer, stream, &format!("unicode\"{}\"", escaped_string));
             } else {
                 write_token(printer, stream, value);
             }
+        } else if kind == "string" {
+            // The compiler gives no value for a string that is not valid UTF-8.
+            write_string(printer, stream, &unencode_hex_value(hex_value));
         }
 
         if let Some(sub_denomination) = node.get_str_for_key("subdenomination") {
@@ -1992,7 +2021,9 @@ impl NodePrinter<SolidityAST> for YulLiteralPrinter {
                 }
             } else if kind_str == "string" {
                 if let Some(value_str) = node.get_str_for_key("value") {
-                    write_string(printer, stream, value_str);
+                    write_string(printer, stream, &unencode_string(value_str));
+                } else if let Some(hex_value) = node.get_str_for_key("hexValue") {
+                    write_string(printer, stream, &unencode_hex_value(hex_value));
                 }
             }
         }
-- 
2.43.0


From 7717064f6a00184d0b51caa2387b0b9fb0a2c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:01 +0000
Subject: [PATCH 29/56] fix: print the space before the last literal of a
 pragma

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index cd0b17f..cc3e76e 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -398,7 +398,7 @@ impl NodePrinter<SolidityAST> for PragmaDirectivePrinter {
                             needs_space = false;
                         }
 
-                        if i < (v.len() - 1) && needs_space {
+                        if needs_space {
                             write_space(printer, stream);
                         }
                         write_token(printer, stream, s);
-- 
2.43.0


From c58f9334c831032b6cd9689b854296fb8935d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:02 +0000
Subject: [PATCH 30/56] fix: separate the modifiers of a function by spaces,
 not commas, and print no visibility for free functions

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 40 +++++---------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index cc3e76e..fd3463b 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -76,28 +76,6 @@ fn print_operator_helper(printer: &mut PrettyPrinter, stream: &mut dyn Write, no
     }
 }
 
-/// Helper function to write an array preceded by a space.
-///
-/// # Abstract
-///
-/// * `printer` - The [`PrettyPrinter`] that will write formatted output to `stream`.
-/// * `node` - The [`Write`] object that will receive formatted output.
-/// * `factory` - The [`NodePrinterFactory<AST>`] object to generate node printers.
-/// * `node` - The [`SolidityAST`] node.
-fn print_space_and_array_helper(
-    printer: &mut PrettyPrinter,
-    stream: &mut dyn Write,
-    factory: &dyn NodePrinterFactory<SolidityAST>,
-    node: &SolidityAST,
-) {
-    if let Some(array) = node.as_array() {
-        if !array.is_empty() {
-            write_space(printer, stream);
-            print_array_helper(printer, stream, factory, array);
-        }
-    }
-}
-
 /// For Block, UncheckedBlock, and YulBlock nodes, print out the statements array.
 ///
 /// # Arguments
@@ -752,12 +730,11 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
         }
 
         if let Some(visibility) = node.get_str_for_key("visibility") {
-            write_space(printer, stream);
-            write_token(printer, stream, visibility);
-            // if visibility != "internal" {
-            //     write_space(printer, stream);
-            //     write_token(printer, stream, visibility);
-            // }
+            // Free functions have no visibility.
+            if node.get_str_for_key("kind") != Some("freeFunction") {
+                write_space(printer, stream);
+                write_token(printer, stream, visibility);
+            }
         }
 
         if let Some(virtual_bool) = node.get_bool_for_key("virtual") {
@@ -783,8 +760,11 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
             traverse_sub_node_and_print(printer, stream, factory, overrides);
         }
 
-        if let Some(modifiers) = node.get("modifiers") {
-            print_space_and_array_helper(printer, stream, factory, modifiers);
+        if let Some(modifiers) = node.get_array_for_key("modifiers") {
+            for modifier in modifiers {
+                write_space(printer, stream);
+                traverse_sub_node_and_print(printer, stream, factory, modifier);
+            }
         }
 
         print_return_parameters_helper(printer, stream, factory, node);
-- 
2.43.0


From a8f39206f1a8121ee17c93e8cda87248b954d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:04 +0000
Subject: [PATCH 31/56] fix: end file level constants and modifiers without a
 body with a semicolon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index fd3463b..5d98400 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -322,6 +322,9 @@ impl NodePrinter<SolidityAST> for SourceUnitPrinter {
                     if let Some(node) = node_array.get(i) {
                         write_indent(printer, stream);
                         traverse_sub_node_and_print(printer, stream, factory, node);
+                        if node.get_str_for_key("nodeType") == Some("VariableDeclaration") {
+                            write_token(printer, stream, ";");
+                        }
                         if i < (node_array.len() - 1) {
                             write_newline(printer, stream);
                             write_newline(printer, stream);
@@ -1517,12 +1520,15 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
         if let Some(body) = node.get("body") {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, body);
+        } else {
+            write_token(printer, stream, ";");
         }
     }
 }
-- 
2.43.0


From 2440715509fcb1c6049125bb3f759bbd94669d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:05 +0000
Subject: [PATCH 32/56] fix: print the overrides of variables apart from their
 type, and transient variables as such

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 5d98400..2fc2ece 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -635,6 +635,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
@@ -654,7 +655,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
         node: &SolidityAST,
     ) {
         if let Some(location) = node.get_str_for_key("storageLocation") {
-            if location == "memory" || location == "storage" || location == "calldata" {
+            if matches!(location, "memory" | "storage" | "calldata" | "transient") {
                 write_space(printer, stream);
                 write_token(printer, stream, location);
             }
-- 
2.43.0


From 63f8a3770a769f870eccfed5244cbac27690b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:07 +0000
Subject: [PATCH 33/56] fix: print the names in mappings and the mutability and
 return types of function types

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 40 ++++++++++++++++++--
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 2fc2ece..75b2049 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -146,7 +146,7 @@ fn print_arguments_helper(
     }
 }
 
-/// Write the returnParameters node with a returns statement.
+/// Write the return parameters node with a returns statement.
 ///
 /// # Arguments
 ///
@@ -154,13 +154,15 @@ fn print_arguments_helper(
 /// * `stream` - The [`Write`] object that will received the formatted text.
 /// * `factory` - The [`SolidityNodePrinterFactory`] that generates printers for AST nodes.
 /// * `node` - The node in the Solidity AST.
+/// * `key` - The key of the return parameters in the node.
 fn print_return_parameters_helper(
     printer: &mut PrettyPrinter,
     stream: &mut dyn Write,
     factory: &dyn NodePrinterFactory<SolidityAST>,
     node: &SolidityAST,
+    key: &str,
 ) {
-    if let Some(return_parameters_node) = node.get("returnParameters") {
+    if let Some(return_parameters_node) = node.get(key) {
         if let Some(parameters_array) = return_parameters_node.get_array_for_key("parameters") {
             if !parameters_array.is_empty() {
                 write_space(printer, stream);
@@ -551,6 +553,28 @@ impl NodePrinter<SolidityAST> for ElementaryTypeNamePrinter {
     }
 }
 
+/// Write the optional name of the key or value of a mapping.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will format the output text.
+/// * `stream` - The [`Write`] object that will received the formatted text.
+/// * `node` - The mapping node in the Solidity AST.
+/// * `key` - The key of the name in the node.
+fn print_mapping_name_helper(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    node: &SolidityAST,
+    key: &str,
+) {
+    if let Some(name) = node.get_str_for_key(key) {
+        if !name.is_empty() {
+            write_space(printer, stream);
+            write_token(printer, stream, name);
+        }
+    }
+}
+
 struct MappingPrinter {}
 
 impl NodePrinter<SolidityAST> for MappingPrinter {
@@ -567,6 +591,7 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
         if let Some(key) = node.get("keyType") {
             traverse_sub_node_and_print(printer, stream, factory, key);
         }
+        print_mapping_name_helper(printer, stream, node, "keyName");
 
         write_space(printer, stream);
         write_token(printer, stream, "=>");
@@ -575,6 +600,7 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
         if let Some(value) = node.get("valueType") {
             traverse_sub_node_and_print(printer, stream, factory, value);
         }
+        print_mapping_name_helper(printer, stream, node, "valueName");
 
         write_token(printer, stream, ")");
     }
@@ -771,7 +797,7 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
             }
         }
 
-        print_return_parameters_helper(printer, stream, factory, node);
+        print_return_parameters_helper(printer, stream, factory, node, "returnParameters");
 
         if let Some(body) = node.get("body") {
             write_space(printer, stream);
@@ -2081,8 +2107,14 @@ impl NodePrinter<SolidityAST> for FunctionTypeNamePrinter {
                 write_token(printer, stream, visibility_str);
             }
         }
+        if let Some(mutability_str) = node.get_str_for_key("stateMutability") {
+            if mutability_str != "nonpayable" {
+                write_space(printer, stream);
+                write_token(printer, stream, mutability_str);
+            }
+        }
 
-        print_return_parameters_helper(printer, stream, factory, node);
+        print_return_parameters_helper(printer, stream, factory, node, "returnParameterTypes");
     }
 }
 
-- 
2.43.0


From f418fef62672cc35cfd20b043352b567ad744f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:09 +0000
Subject: [PATCH 34/56] fix: print inline arrays and index ranges

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 37 ++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 75b2049..0fc5aa4 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1258,6 +1258,36 @@ impl NodePrinter<SolidityAST> for IndexAccessPrinter {
     }
 }
 
+struct IndexRangeAccessPrinter {}
+
+impl NodePrinter<SolidityAST> for IndexRangeAccessPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<SolidityAST>,
+        node: &SolidityAST,
+    ) {
+        if let Some(base_expression) = node.get("baseExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, base_expression);
+        }
+
+        write_token(printer, stream, "[");
+
+        if let Some(start_expression) = node.get("startExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, start_expression);
+        }
+
+        write_token(printer, stream, ":");
+
+        if let Some(end_expression) = node.get("endExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, end_expression);
+        }
+
+        write_token(printer, stream, "]");
+    }
+}
+
 struct IfStatementPrinter {}
 
 impl NodePrinter<SolidityAST> for IfStatementPrinter {
@@ -1719,7 +1749,9 @@ impl NodePrinter<SolidityAST> for TupleExpressionPrinter {
         if let Some(components) = node.get("components") {
             if let Some(components_array) = components.as_array() {
                 if !components_array.is_empty() {
-                    write_token(printer, stream, "(");
+                    let is_inline_array = node.get_bool_for_key("isInlineArray").unwrap_or(false);
+                    let (open, close) = if is_inline_array { ("[", "]") } else { ("(", ")") };
+                    write_token(printer, stream, open);
                     let mut i: usize = 0;
                     while i < components_array.len() {
                         let value = components_array.get(i).unwrap();
@@ -1733,7 +1765,7 @@ impl NodePrinter<SolidityAST> for TupleExpressionPrinter {
                         }
                         i += 1;
                     }
-                    write_token(printer, stream, ")");
+                    write_token(printer, stream, close);
                 }
             }
         }
@@ -2715,6 +2747,7 @@ impl NodePrinterFactory<SolidityAST> for SolidityNodePrinterFactory {
                 "IfStatement" => Box::new(IfStatementPrinter {}),
                 "ImportDirective" => Box::new(ImportDirectivePrinter {}),
                 "IndexAccess" => Box::new(IndexAccessPrinter {}),
+                "IndexRangeAccess" => Box::new(IndexRangeAccessPrinter {}),
                 "InheritanceSpecifier" => Box::new(InheritanceSpecifierPrinter {}),
                 "InlineAssembly" => Box::new(InlineAssemblyPrinter {}),
                 "Literal" => Box::new(LiteralPrinter {}),
-- 
2.43.0


From 84fc88adf84ed6e18a31abeb4c66a11bff69e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:11 +0000
Subject: [PATCH 35/56] fix: print the semicolons of a for statement whose
 parts are left out

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 0fc5aa4..286d7eb 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1848,12 +1848,14 @@ impl NodePrinter<SolidityAST> for ForStatementPrinter {
         write_token(printer, stream, "for(");
         if let Some(initialization_node) = node.get("initializationExpression") {
             traverse_sub_node_and_print(printer, stream, factory, initialization_node);
+        } else {
+            write_token(printer, stream, ";");
         }
         if let Some(condition_node) = node.get("condition") {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, condition_node);
-            write_token(printer, stream, ";");
         }
+        write_token(printer, stream, ";");
         if let Some(loop_expression_node) = node.get("loopExpression") {
             let mut printer_settings = factory.get_settings().clone();
             printer_settings.set_value_for_key(
-- 
2.43.0


From b4fc649ed390f467f287b5007a03041b914ee1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:12 +0000
Subject: [PATCH 36/56] fix: print returns in a try statement only when the
 call's values are declared

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 286d7eb..cc02a39 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1164,16 +1164,9 @@ impl NodePrinter<SolidityAST> for FunctionCallPrinter {
         printer: &mut PrettyPrinter,
         stream: &mut dyn Write,
         _factory: &dyn NodePrinterFactory<SolidityAST>,
-        node: &SolidityAST,
+        _node: &SolidityAST,
     ) {
         write_token(printer, stream, ")");
-
-        if let Some(try_call_bool) = node.get_bool_for_key("tryCall") {
-            if try_call_bool {
-                write_space(printer, stream);
-                write_token(printer, stream, "returns");
-            }
-        }
     }
 }
 
@@ -2385,6 +2378,9 @@ impl NodePrinter<SolidityAST> for TryStatementPrinter {
                 if i >= 1 {
                     write_token(printer, stream, "catch");
                     write_space(printer, stream);
+                } else if clause.contains_key("parameters") {
+                    write_token(printer, stream, "returns");
+                    write_space(printer, stream);
                 }
                 traverse_sub_node_and_print(printer, stream, factory, clause);
                 if i < (clauses_array.len()) {
-- 
2.43.0


From 072e8ca53a77293fe7ed7dc468c6da578585e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:14 +0000
Subject: [PATCH 37/56] fix: print the functions of using directives in all
 their forms, and using for every type

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index cc02a39..15506bd 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1493,7 +1493,7 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
                         factory,
                         function_list_array,
                         |p, s, _f, n| {
-                            if let Some(definition) = n.get("definition") {
+                            if let Some(definition) = n.get("definition").or(n.get("function")) {
                                 if let Some(name) = definition.get_str_for_key("name") {
                                     write_token(p, s, name);
                                 }
@@ -1523,6 +1523,8 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
         write_space(printer, stream);
         if let Some(type_name) = node.get("typeName") {
             traverse_sub_node_and_print(printer, stream, factory, type_name);
+        } else {
+            write_token(printer, stream, "*");
         }
 
         if let Some(global_bool) = node.get_bool_for_key("global") {
-- 
2.43.0


From 97bd31557a87ef1df59923725491b3ea255cc533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:16 +0000
Subject: [PATCH 38/56] fix: print Yul variables without a value and several
 return variables as Yul has them

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 15506bd..3002212 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1973,12 +1973,12 @@ impl NodePrinter<SolidityAST> for YulVariableDeclarationPrinter {
         if let Some(variables_node) = node.get("variables") {
             if let Some(variables_array) = variables_node.as_array() {
                 print_array_helper(printer, stream, factory, variables_array);
-                write_space(printer, stream);
             }
         }
-        write_token(printer, stream, ":=");
-        write_space(printer, stream);
         if let Some(value_node) = node.get("value") {
+            write_space(printer, stream);
+            write_token(printer, stream, ":=");
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, value_node);
         }
     }
@@ -2606,15 +2606,7 @@ impl NodePrinter<SolidityAST> for YulFunctionDefinitionPrinter {
             if !return_vars_array.is_empty() {
                 write_token(printer, stream, "->");
                 write_space(printer, stream);
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, "(");
-                }
-
                 print_array_helper(printer, stream, factory, return_vars_array);
-
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, ")");
-                }
                 write_space(printer, stream);
             }
         }
-- 
2.43.0


From cb9687d6ab919084bf8e9c6d5a34825fe78c8e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:18 +0000
Subject: [PATCH 39/56] fix: print the type of a conversion when the compiler
 stopped before the analysis

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 3002212..f0ed47a 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1716,16 +1716,11 @@ impl NodePrinter<SolidityAST> for ElementaryTypeNameExpressionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
-        // Not sure if this is the correct way to handle this node.
-        if let Some(pure) = node.get_bool_for_key("isPure") {
-            if pure {
-                if let Some(type_name) = node.get("typeName") {
-                    if let Some(mutability) = type_name.get_str_for_key("stateMutability") {
-                        write_token(printer, stream, mutability);
-                    } else {
-                        traverse_sub_node_and_print(printer, stream, factory, type_name);
-                    }
-                }
+        if let Some(type_name) = node.get("typeName") {
+            if type_name.get_str_for_key("stateMutability") == Some("payable") {
+                write_token(printer, stream, "payable");
+            } else {
+                traverse_sub_node_and_print(printer, stream, factory, type_name);
             }
         }
     }
-- 
2.43.0


From 41000fdfdcba1e77726c188cc61518f935355989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:20 +0000
Subject: [PATCH 40/56] fix: keep documentation that contains the end of a
 comment inside the comment

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index f0ed47a..73c8e5b 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1606,6 +1606,7 @@ impl NodePrinter<SolidityAST> for StructuredDocumentationPrinter {
         node: &SolidityAST,
     ) {
         if let Some(text) = node.get_str_for_key("text") {
+            let text = text.replace("*/", "* /");
             let text_array: Vec<&str> = text.split('\n').collect();
             for sub_text in text_array {
                 write_newline(printer, stream);
-- 
2.43.0


From cabfd2b66b9df12ae256e636163c11e783945e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:26 +0000
Subject: [PATCH 41/56] fix: print the minus sign of Vyper expressions

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 418113f..0dd9a3a 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -965,6 +965,8 @@ impl NodePrinter<VyperAST> for UnaryOpPrinter {
                     needs_space = true;
                 } else if op_str == "Invert" {
                     write_token(printer, stream, "~");
+                } else if op_str == "USub" {
+                    write_token(printer, stream, "-");
                 }
             }
         }
-- 
2.43.0


From f1baae8bdd7ff45776274c63ad66c7ce016a9bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:28 +0000
Subject: [PATCH 42/56] fix: print all operands of Vyper's and/or

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 0dd9a3a..915f201 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -761,18 +761,18 @@ impl NodePrinter<VyperAST> for BoolOpPrinter {
                     return;
                 }
 
-                let left = &values_array[0];
-                let right = &values_array[1];
+                write_node_with_parens_maybe(printer, stream, factory, &values_array[0]);
 
-                write_node_with_parens_maybe(printer, stream, factory, left);
-                write_space(printer, stream);
+                for value in &values_array[1..] {
+                    write_space(printer, stream);
 
-                if let Some(op_node) = node.get("op") {
-                    traverse_sub_node_and_print(printer, stream, factory, op_node);
-                }
+                    if let Some(op_node) = node.get("op") {
+                        traverse_sub_node_and_print(printer, stream, factory, op_node);
+                    }
 
-                write_space(printer, stream);
-                write_node_with_parens_maybe(printer, stream, factory, right);
+                    write_space(printer, stream);
+                    write_node_with_parens_maybe(printer, stream, factory, value);
+                }
             }
         }
     }
-- 
2.43.0


From 7c54d06ea7bbdc6db46aba51156a7fc89fb72cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 43/56] fix: print Vyper calls with keyword arguments only, and
 tuples as arguments

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 915f201..97ac7c5 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -908,13 +908,26 @@ impl NodePrinter<VyperAST> for CallPrinter {
             traverse_sub_node_and_print(printer, stream, factory, func_node);
         }
         write_token(printer, stream, "(");
-        write_args_as_array(printer, stream, factory, node);
+        // Without parentheses the elements of a tuple would become arguments of their own.
+        let mut printer_settings = factory.get_settings().clone();
+        printer_settings.set_value_for_key(
+            TUPLES_SHOULD_USE_PARENTHESES,
+            PreferenceValue::Boolean(true),
+        );
+        let sub_factory = VyperNodePrinterFactory::new(printer_settings);
+        write_args_as_array(printer, stream, &sub_factory, node);
         if let Some(keywords_node) = node.get("keywords") {
             if let Some(keywords_array) = keywords_node.as_array() {
                 if !keywords_array.is_empty() {
-                    write_token(printer, stream, ",");
-                    write_space(printer, stream);
-                    write_key_of_node_as_array(printer, stream, factory, "keywords", node);
+                    let has_args = node
+                        .get("args")
+                        .and_then(|args_node| args_node.as_array())
+                        .map_or(false, |args_array| !args_array.is_empty());
+                    if has_args {
+                        write_token(printer, stream, ",");
+                        write_space(printer, stream);
+                    }
+                    write_key_of_node_as_array(printer, stream, &sub_factory, "keywords", node);
                 }
             }
         }
-- 
2.43.0


From 785e4651f9adb86a2deb430d69019911ab6ab79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:31 +0000
Subject: [PATCH 44/56] fix: print the leading dots of relative Vyper imports

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 97ac7c5..b33c66c 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -1278,13 +1278,14 @@ impl NodePrinter<VyperAST> for ImportFromPrinter {
         write_token(printer, stream, "from");
         write_space(printer, stream);
         if let Some(module_node) = node.get("module") {
-            if !module_node.is_null() {
-                if let Some(module_str) = module_node.as_str() {
-                    write_token(printer, stream, module_str);
-                }
-            } else {
+            let module_str = module_node.as_str();
+            let default_level = if module_str.is_some() { 0 } else { 1 };
+            for _ in 0..node.get_int_for_key("level").unwrap_or(default_level) {
                 write_token(printer, stream, ".");
             }
+            if let Some(module_str) = module_str {
+                write_token(printer, stream, module_str);
+            }
             write_space(printer, stream);
         }
         write_token(printer, stream, "import");
-- 
2.43.0


From b7dc0c06569e7ee7186b2bdc7e1d576700167c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:33 +0000
Subject: [PATCH 45/56] fix: print Vyper's implements declarations, conditional
 expressions and shift operators

---
 mutagenyx_lib/src/vyper/operators.rs      |  2 ++
 mutagenyx_lib/src/vyper/pretty_printer.rs | 34 +++++++++++++++++++++--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/operators.rs b/mutagenyx_lib/src/vyper/operators.rs
index 3c44a84..428b0f5 100644
--- a/mutagenyx_lib/src/vyper/operators.rs
+++ b/mutagenyx_lib/src/vyper/operators.rs
@@ -9,6 +9,8 @@ pub fn get_python_operator_map() -> HashMap<&'static str, &'static str> {
     operator_map.insert("Div", "/");
     operator_map.insert("Mod", "%");
     operator_map.insert("Pow", "**");
+    operator_map.insert("LShift", "<<");
+    operator_map.insert("RShift", ">>");
     operator_map.insert("And", "&&");
     operator_map.insert("Or", "||");
     operator_map.insert("BitAnd", "&");
diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index b33c66c..f274885 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -199,7 +199,7 @@ fn write_indented_array(
 }
 
 /// Write the contents of the node and wrap the contents in parentheses if the node is a BinOp,
-/// Compare, or BoolOp.
+/// Compare, BoolOp, or IfExp.
 ///
 /// # Arguments
 ///
@@ -215,7 +215,10 @@ fn write_node_with_parens_maybe(
     node: &VyperAST,
 ) {
     if let Some(ast_type) = node.get_str_for_key("ast_type") {
-        let needs_parens = ast_type == "BinOp" || ast_type == "Compare" || ast_type == "BoolOp";
+        let needs_parens = ast_type == "BinOp"
+            || ast_type == "Compare"
+            || ast_type == "BoolOp"
+            || ast_type == "IfExp";
 
         if needs_parens {
             write_token(printer, stream, "(");
@@ -778,6 +781,30 @@ impl NodePrinter<VyperAST> for BoolOpPrinter {
     }
 }
 
+struct IfExpPrinter {}
+
+impl NodePrinter<VyperAST> for IfExpPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<VyperAST>,
+        node: &VyperAST,
+    ) {
+        if let Some(body_node) = node.get("body") {
+            write_node_with_parens_maybe(printer, stream, factory, body_node);
+        }
+        write_token(printer, stream, " if ");
+        if let Some(test_node) = node.get("test") {
+            write_node_with_parens_maybe(printer, stream, factory, test_node);
+        }
+        write_token(printer, stream, " else ");
+        if let Some(orelse_node) = node.get("orelse") {
+            write_node_with_parens_maybe(printer, stream, factory, orelse_node);
+        }
+    }
+}
+
 struct AssertPrinter {}
 
 impl NodePrinter<VyperAST> for AssertPrinter {
@@ -1612,10 +1639,11 @@ impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
                 "BinOp" => Box::new(BinOpPrinter::new()),
                 "BoolOp" => Box::new(BoolOpPrinter {}),
                 "Compare" => Box::new(BinOpPrinter::new()),
+                "IfExp" => Box::new(IfExpPrinter {}),
                 "Assert" => Box::new(AssertPrinter {}),
                 "Str" => Box::new(StrPrinter {}),
                 "Module" => Box::new(ModulePrinter {}),
-                "AnnAssign" => Box::new(AnnAssignPrinter {}),
+                "AnnAssign" | "ImplementsDecl" => Box::new(AnnAssignPrinter {}),
                 "Expr" => Box::new(ExprPrinter {}),
                 "Call" => Box::new(CallPrinter {}),
                 "NameConstant" => Box::new(NameConstantPrinter {}),
-- 
2.43.0


From 8c2eb10823ec747c3e41554a6d9bf351f318e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:34 +0000
Subject: [PATCH 46/56] fix: keep unary expressions and negative numbers
 together when Vyper operators would split them

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 101 +++++++++++++++++++---
 1 file changed, 89 insertions(+), 12 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index f274885..f29489f 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -221,16 +221,93 @@ fn write_node_with_parens_maybe(
             || ast_type == "IfExp";
 
         if needs_parens {
-            write_token(printer, stream, "(");
+            write_node_with_parens(printer, stream, factory, node);
+        } else {
+            traverse_sub_node_and_print(printer, stream, factory, node);
         }
-        traverse_sub_node_and_print(printer, stream, factory, node);
+    }
+}
 
-        if needs_parens {
-            write_token(printer, stream, ")");
+/// Write the contents of the node wrapped in parentheses.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will format the text.
+/// * `stream` - The [`Write`] object that will receive the formatted text.
+/// * `factory` - The [`NodePrinterFactory<AST>`] object that generates node printers for AST
+/// nodes.
+/// * `node` - The Vyper AST node.
+fn write_node_with_parens(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<VyperAST>,
+    node: &VyperAST,
+) {
+    write_token(printer, stream, "(");
+    traverse_sub_node_and_print(printer, stream, factory, node);
+    write_token(printer, stream, ")");
+}
+
+/// Write the `value` element of an attribute or subscript `node`.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will format the text.
+/// * `stream` - The [`Write`] object that will receive the formatted text.
+/// * `factory` - The [`NodePrinterFactory<AST>`] object that generates node printers for AST
+/// nodes.
+/// * `node` - The Vyper AST node.
+fn write_value_of_primary(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<VyperAST>,
+    node: &VyperAST,
+) {
+    if let Some(value_node) = node.get("value") {
+        if value_node.get_str_for_key("ast_type") == Some("UnaryOp") {
+            write_node_with_parens(printer, stream, factory, value_node);
+        } else {
+            write_node_with_parens_maybe(printer, stream, factory, value_node);
         }
     }
 }
 
+/// Write an operand of a BinOp or Compare node.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will format the text.
+/// * `stream` - The [`Write`] object that will receive the formatted text.
+/// * `factory` - The [`NodePrinterFactory<AST>`] object that generates node printers for AST
+/// nodes.
+/// * `is_power_base` - True if the operand is the base of a power.
+/// * `node` - The Vyper AST node.
+fn write_operand(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<VyperAST>,
+    is_power_base: bool,
+    node: &VyperAST,
+) {
+    // All the binary operators have higher precedence than 'not', and the power operator also has
+    // higher precedence than a sign.
+    let needs_parens = match node.get_str_for_key("ast_type") {
+        Some("UnaryOp") => {
+            let operator = node
+                .get("op")
+                .and_then(|op_node| op_node.get_str_for_key("ast_type"));
+            is_power_base || operator == Some("Not")
+        }
+        Some("Int") => is_power_base && node.get_int_for_key("value").map_or(false, |v| v < 0),
+        _ => false,
+    };
+    if needs_parens {
+        write_node_with_parens(printer, stream, factory, node);
+    } else {
+        write_node_with_parens_maybe(printer, stream, factory, node);
+    }
+}
+
 /// Write the string element in the value key of `node` as a token.
 ///
 /// # Arguments
@@ -357,9 +434,7 @@ impl NodePrinter<VyperAST> for SubscriptPrinter {
         factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
-        if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
-        }
+        write_value_of_primary(printer, stream, factory, node);
 
         if let Some(slice_node) = node.get("slice") {
             traverse_sub_node_and_print(printer, stream, factory, slice_node);
@@ -628,9 +703,7 @@ impl NodePrinter<VyperAST> for AttributePrinter {
         factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
-        if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
-        }
+        write_value_of_primary(printer, stream, factory, node);
         write_token(printer, stream, ".");
         if let Some(attribute_str) = node.get_str_for_key("attr") {
             write_token(printer, stream, attribute_str);
@@ -731,7 +804,11 @@ impl NodePrinter<VyperAST> for BinOpPrinter {
         node: &VyperAST,
     ) {
         if let Some(left_node) = node.get("left") {
-            write_node_with_parens_maybe(printer, stream, factory, left_node);
+            let is_power = node
+                .get("op")
+                .and_then(|op_node| op_node.get_str_for_key("ast_type"))
+                == Some("Pow");
+            write_operand(printer, stream, factory, is_power, left_node);
         }
         if let Some(op_node) = node.get("op") {
             if let Some(ast_type_str) = op_node.get_str_for_key("ast_type") {
@@ -743,7 +820,7 @@ impl NodePrinter<VyperAST> for BinOpPrinter {
             }
         }
         if let Some(right_node) = node.get("right") {
-            write_node_with_parens_maybe(printer, stream, factory, right_node);
+            write_operand(printer, stream, factory, false, right_node);
         }
     }
 }
-- 
2.43.0


From cd00d74ef1dc56d5e8e35abf30066c9f9aee0b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:36 +0000
Subject: [PATCH 47/56] fix: escape the control characters of Vyper strings,
 and quotes and backslashes of doc strings

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 45 +++++++++++++++++++----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index f29489f..d40f094 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -325,6 +325,24 @@ fn write_value_string_as_token(
     }
 }
 
+/// Escape the characters that have a special meaning in a doc string.
+///
+/// # Arguments
+///
+/// * `text` - The text of the doc string.
+fn escape_doc_string(text: &str) -> String {
+    let mut escaped_text = String::new();
+    let mut chars = text.chars().peekable();
+    while let Some(c) = chars.next() {
+        // A single quotation mark may stand as it is, except next to another one.
+        if c == '\\' || (c == '"' && matches!(chars.peek(), None | Some('"'))) {
+            escaped_text.push('\\');
+        }
+        escaped_text.push(c);
+    }
+    escaped_text
+}
+
 /// Return the string containing the pretty-printed form of `node`.
 ///
 /// # Arguments
@@ -576,12 +594,12 @@ impl NodePrinter<VyperAST> for FunctionDefPrinter {
                 if let Some(doc_string) = doc_string_node.get_str_for_key("value") {
                     write_newline(printer, stream);
                     write_indent(printer, stream);
-                    let doc_string_text = String::from(doc_string);
+                    let doc_string_text = escape_doc_string(doc_string);
                     if let Some(_newline_index) = doc_string_text.find('\n') {
-                        write_triple_string(printer, stream, doc_string);
+                        write_triple_string(printer, stream, &doc_string_text);
                     } else {
                         write_token(printer, stream, "\"\"\"");
-                        write_flowable_text(printer, stream, doc_string, "");
+                        write_flowable_text(printer, stream, &doc_string_text, "");
                         write_token(printer, stream, "\"\"\"");
                     }
                     write_newline(printer, stream);
@@ -918,8 +936,19 @@ impl NodePrinter<VyperAST> for StrPrinter {
         node: &VyperAST,
     ) {
         if let Some(value_str) = node.get_str_for_key("value") {
-            let escaped_string = value_str.replace('\\', "\\\\").replace('"', "\\\"");
-            write_string(printer, stream, &escaped_string.replace('\n', "\\n"));
+            let mut escaped_string = String::new();
+            for c in value_str.chars() {
+                match c {
+                    '\\' => escaped_string += "\\\\",
+                    '"' => escaped_string += "\\\"",
+                    '\n' => escaped_string += "\\n",
+                    c if c.is_ascii_control() => {
+                        escaped_string += &format!("\\x{:02x}", c as u32)
+                    }
+                    c => escaped_string.push(c),
+                }
+            }
+            write_string(printer, stream, &escaped_string);
         }
     }
 }
@@ -936,12 +965,12 @@ impl NodePrinter<VyperAST> for ModulePrinter {
     ) {
         if let Some(doc_string_node) = node.get("doc_string") {
             if let Some(doc_string) = doc_string_node.get_str_for_key("value") {
-                let doc_text = String::from(doc_string);
+                let doc_text = escape_doc_string(doc_string);
                 if let Some(_newline_index) = doc_text.find('\n') {
-                    write_triple_string(printer, stream, doc_string)
+                    write_triple_string(printer, stream, &doc_text)
                 } else {
                     write_token(printer, stream, "\"\"\"");
-                    write_flowable_text(printer, stream, doc_string, "");
+                    write_flowable_text(printer, stream, &doc_text, "");
                     write_token(printer, stream, "\"\"\"");
                 }
                 write_newline(printer, stream);
-- 
2.43.0


From ccf7ee08ede7c56a53c56da5420964f386b7fb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:03 +0000
Subject: [PATCH 48/56] fix: print and mutate Vyper integers that do not fit in
 a signed 64 bit integer

---
 mutagenyx_lib/src/vyper/mutators.rs       | 42 ++++++++++++-----------
 mutagenyx_lib/src/vyper/pretty_printer.rs |  2 ++
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 288f9b0..86cc064 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1388,41 +1388,43 @@ impl Mutator<VyperAST> for IntegerMutator {
 
         let original_value_s = pretty_print_node(node);
 
-        match rand.next_u64() % 3_u64 {
+        let original_value = node.get("value").and_then(|value_node| {
+            value_node
+                .as_i64()
+                .map(i128::from)
+                .or_else(|| value_node.as_u64().map(i128::from))
+        });
+
+        let adjusted_value = match rand.next_u64() % 3_u64 {
             0 => {
                 hasher.update(&0_u64.to_ne_bytes())?;
 
                 // Add one to the integer constant.
-                if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value += 1;
-                        let json_value = json![value];
-                        node.set_node_for_key("value", json_value);
-                    }
-                }
+                original_value.map(|value| value + 1)
             }
             1 => {
                 hasher.update(&1_u64.to_ne_bytes())?;
 
                 // Subtract one from the integer constant.
-                if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value -= 1;
-                        let json_value = json![value];
-                        node.set_node_for_key("value", json_value);
-                    }
-                }
+                original_value.map(|value| value - 1)
             }
-            2 => {
+            _ => {
                 hasher.update(&2_u64.to_ne_bytes())?;
+                None
+            }
+        };
 
+        // The node can hold signed and unsigned 64 bit integers.
+        let json_value = match adjusted_value {
+            Some(value) if i64::try_from(value).is_ok() => json![value as i64],
+            Some(value) if u64::try_from(value).is_ok() => json![value as u64],
+            _ => {
                 // Generate a random number.
                 let value = rand.next_u64();
-                let json_value = json![value as i64];
-                node.set_node_for_key("value", json_value);
+                json![value as i64]
             }
-            _ => (),
-        }
+        };
+        node.set_node_for_key("value", json_value);
 
         let new_value_s = pretty_print_node(node);
 
diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index d40f094..8f589e2 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -780,6 +780,8 @@ impl NodePrinter<VyperAST> for IntPrinter {
     ) {
         if let Some(value) = node.get_int_for_key("value") {
             write_token(printer, stream, &value.to_string());
+        } else if let Some(value) = node.get("value").and_then(|value| value.as_u64()) {
+            write_token(printer, stream, &value.to_string());
         } else if let Some(value) = node.get_float_for_key("value") {
             write_token(printer, stream, &value.to_string());
         }
-- 
2.43.0


From a5d56063a2374c7f7c1964389894b33b773fc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:20 +0000
Subject: [PATCH 49/56] fix: keep a statement in Vyper functions that return
 sized types after deleting the only one

---
 mutagenyx_lib/src/vyper/mutators.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 86cc064..bc9ecf4 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -905,6 +905,15 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
                                         body_array.push(return_node);
                                     }
                                 }
+                            } else {
+                                // We have no value for the other kinds of types either.
+                                let new_node = match new_pass_node() {
+                                    Ok(node) => node,
+                                    Err(_e) => {
+                                        return Err(MutagenyxError::UnableToGenerateNode("pass"))
+                                    }
+                                };
+                                body_array.push(new_node);
                             }
                         } else {
                             let new_node = match new_pass_node() {
-- 
2.43.0


From c024ab3cc56fb0daba1846dc224dbb9e4db7c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:21 +0000
Subject: [PATCH 50/56] fix: do not limit the indentation where the indentation
 has a meaning

---
 mutagenyx_lib/src/pretty_printer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index b74ca26..9e3310a 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -54,7 +54,8 @@ impl PrettyPrinter {
     ///
     /// The function will not increase the indent level past the page width.
     pub fn increase_indent(&mut self) {
-        if self.indent >= self.max_indent {
+        // Where line breaks have a meaning, the indentation does too and it has no limit.
+        if self.can_break_lines && self.indent >= self.max_indent {
             self.indent = self.max_indent;
         } else {
             self.indent += 1;
@@ -70,7 +71,7 @@ impl PrettyPrinter {
     ///
     /// * `amount` - The number of indents to add to the current indent value.
     pub fn increase_indent_by(&mut self, amount: usize) {
-        if (self.indent + amount) <= self.max_indent {
+        if !self.can_break_lines || (self.indent + amount) <= self.max_indent {
             self.indent += amount;
         } else {
             self.indent = self.max_indent;
@@ -361,7 +362,7 @@ impl PrettyPrinter {
                 self.write_newline(stream)?;
                 self.write_indent(stream)?;
                 self.write_token(stream, next_line_text)?;
-                self.write_flowable_text(stream, t, next_line_text)?;
+                self.write_flowable_text(stream, t.trim_start(), next_line_text)?;
             } else {
                 // Here we carefully examine the breakpoint of the text to see if we are breaking
                 // the text mid-word, or on a space boundary.  If we are breaking mid-word, then
-- 
2.43.0


From 9b9056cd7a8b95e57f12b3eb6e868eb71885e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:43 +0000
Subject: [PATCH 51/56] fix: do not delete the mutability of pure functions in
 Vyper interfaces

---
 mutagenyx_lib/src/vyper/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index bc9ecf4..1b84493 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -642,7 +642,7 @@ impl DeleteStatementMutator {
     pub fn new() -> DeleteStatementMutator {
         DeleteStatementMutator {
             comment_node: None,
-            single_line_statements_to_avoid: vec!["view", "nonpayable", "payable"],
+            single_line_statements_to_avoid: vec!["view", "pure", "nonpayable", "payable"],
         }
     }
 }
-- 
2.43.0


From 82587367c2bb745d9bd6d7b710c9def488c3e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:59 +0000
Subject: [PATCH 52/56] fix: break flowable text after a word that leaves room
 for just a space

---
 mutagenyx_lib/src/pretty_printer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 9e3310a..86c193b 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -389,6 +389,11 @@ impl PrettyPrinter {
                     i += 1;
                 }
 
+                // The last word that fits may end right before the space_left boundary.
+                if previous_char_was_space {
+                    index_of_start_of_word = i;
+                }
+
                 let first_part: &str;
                 let rest: &str;
 
-- 
2.43.0


From ffc1bbaef99a1f1f1f24b6736f5540ae6f1ee550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:36 +0000
Subject: [PATCH 53/56] fix: do not ignore large random seeds in configuration
 files

Seeds are unsigned 64 bit numbers, also in the configuration files that the
tool writes.  Reading one as a signed number lost seeds above 2^63 - 1 without
a word and the run used another seed.
---
 mutagenyx_lib/src/config_file.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index 072d8b3..f101ea2 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -168,8 +168,11 @@ impl ConfigurationFileDetails {
                 details.number_of_mutants = number_of_mutants;
             }
 
-            if let Some(seed) = json_value.get_int_for_key(SEED_KEY) {
-                details.seed = Some(seed as u64);
+            if let Some(seed_node) = json_value.get(SEED_KEY) {
+                // Seeds are unsigned, the larger ones do not fit in an i64.
+                details.seed = seed_node
+                    .as_u64()
+                    .or_else(|| seed_node.as_i64().map(|seed| seed as u64));
             }
 
             if let Some(mutations_array) = json_value.get_array_for_key(MUTATIONS_KEY) {
-- 
2.43.0


From e8593321548449009503da1d3acf528bcb6ad093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:37 +0000
Subject: [PATCH 54/56] fix: report configuration files without a list of file
 names

A configuration file whose file names were not an array was taken for one
with nothing to do and passed over without a message.
---
 mutagenyx_lib/src/config_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index f101ea2..c16625b 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -131,7 +131,7 @@ impl ConfigurationFileDetails {
                 missing_keys.push(String::from(LANGUAGE_KEY));
             }
 
-            if !json_value.contains_key(FILENAMES_KEY) {
+            if json_value.get_array_for_key(FILENAMES_KEY).is_none() {
                 missing_keys.push(String::from(FILENAMES_KEY));
             }
 
-- 
2.43.0


From 7d1ed54b13461945dd475f93e5e864bfe1ed3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:35 +0000
Subject: [PATCH 55/56] fix: let the Assignment algorithm choose true for
 Solidity booleans

The upper bound of gen_range is exclusive, so gen_range(0, 1) is always 0 and
a boolean was only ever replaced with false.
---
 mutagenyx_lib/src/solidity/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 06a2ced..83b3476 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -680,7 +680,7 @@ impl Mutator<SolidityAST> for AssignmentMutator {
             "boo" => {
                 hasher.update("boo".as_bytes())?;
 
-                let replacement_value: i8 = rand.gen_range(0, 1);
+                let replacement_value: i8 = rand.gen_range(0, 2);
                 let bool_literal: bool = replacement_value != 0;
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
-- 
2.43.0


From bb909ccb6afd0bd386aedf451e4757992f46f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:33 +0000
Subject: [PATCH 56/56] fix: let SwapFunctionArguments swap any two arguments
 of the same type

With three or more arguments of one type the algorithm only ever swapped the
first two of them.
---
 mutagenyx_lib/src/solidity/mutators.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 83b3476..9059b59 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1084,10 +1084,21 @@ impl Mutator<SolidityAST> for SwapFunctionArgumentsMutator {
 
                 let list_index = (rand.next_u64() % list_list.len() as u64) as usize;
                 let node_list = &list_list[list_index];
-                let in1 = &node_list[0];
-                let in2 = &node_list[1];
+                let mut pair_indexes = (0, 1);
+                if node_list.len() > 2 {
+                    // There is more than one pair to choose from.
+                    pair_indexes.0 = (rand.next_u64() % node_list.len() as u64) as usize;
+                    pair_indexes.1 = pair_indexes.0;
+                    while pair_indexes.1 == pair_indexes.0 {
+                        pair_indexes.1 = (rand.next_u64() % node_list.len() as u64) as usize;
+                    }
+                }
+                let in1 = &node_list[pair_indexes.0];
+                let in2 = &node_list[pair_indexes.1];
 
                 hasher.update(&list_index.to_ne_bytes())?;
+                hasher.update(&in1.index.min(in2.index).to_ne_bytes())?;
+                hasher.update(&in1.index.max(in2.index).to_ne_bytes())?;
 
                 // pretty print the node contents first before swapping. We need these strings
                 // for the comment node.
-- 
2.43.0

