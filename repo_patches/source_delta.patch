From 65f6a7bc6bb10016ab7d5b0301ed574133c377c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 01/22] fix: return batch results in the order of the files

The workers send their results over a channel and the results were collected in
the order in which the workers happened to finish.
---
 src/formatter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d2392f1..bdd98de 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -103,7 +103,7 @@ impl Formatter {
         let (tx, rx) = mpsc::channel();
         let config = self.config.clone();
 
-        for file in &self.source_files {
+        for (index, file) in self.source_files.iter().enumerate() {
             let tx = tx.clone();
             let config = config.clone();
             let file = file.clone();
@@ -124,10 +124,11 @@ impl Formatter {
                 });
                 match result {
                     Ok(result) => {
-                        tx.send(Ok(result)).expect("failed to send result in tx");
+                        tx.send((index, Ok(result)))
+                            .expect("failed to send result in tx");
                     }
                     Err(_) => tx
-                        .send(Err("Thread panicked".to_string()))
+                        .send((index, Err("Thread panicked".to_string())))
                         .expect("failed to send error in tx"),
                 }
             });
@@ -135,7 +136,10 @@ impl Formatter {
 
         drop(tx);
 
-        rx.into_iter().collect()
+        // the workers finish in any order; the results are returned in the order of the files
+        let mut results: Vec<(usize, Result<String, String>)> = rx.into_iter().collect();
+        results.sort_by_key(|(index, _)| *index);
+        results.into_iter().map(|(_, result)| result).collect()
     }
 
     pub fn format_one(source_code: &str, config: Config) -> String {
-- 
2.43.0


From 6982375d388a2c0e172af011885cde0136d6275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 02/22] fix: --check compares with the text it formatted, not
 with a second read of the file

---
 src/formatter.rs | 13 +++++++++++--
 src/main.rs      | 11 ++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index bdd98de..f034bcc 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -100,6 +100,14 @@ impl Formatter {
     }
 
     pub fn format(&self) -> Vec<Result<String, String>> {
+        self.format_with_source()
+            .into_iter()
+            .map(|result| result.map(|(_, formatted)| formatted))
+            .collect()
+    }
+
+    /// Like `format`, but each result also holds the source text it was made from: `(source, formatted)`
+    pub fn format_with_source(&self) -> Vec<Result<(String, String), String>> {
         let (tx, rx) = mpsc::channel();
         let config = self.config.clone();
 
@@ -120,7 +128,8 @@ impl Formatter {
                         })
                         .unwrap();
 
-                    Formatter::format_one(&source_code, config)
+                    let formatted = Formatter::format_one(&source_code, config);
+                    (source_code, formatted)
                 });
                 match result {
                     Ok(result) => {
@@ -137,7 +146,7 @@ impl Formatter {
         drop(tx);
 
         // the workers finish in any order; the results are returned in the order of the files
-        let mut results: Vec<(usize, Result<String, String>)> = rx.into_iter().collect();
+        let mut results: Vec<_> = rx.into_iter().collect();
         results.sort_by_key(|(index, _)| *index);
         results.into_iter().map(|(_, result)| result).collect()
     }
diff --git a/src/main.rs b/src/main.rs
index 475a2ff..f9d68fc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,4 @@
 use sf_afmt::args::{get_args, Args};
-use sf_afmt::format;
 use sf_afmt::formatter::Formatter;
 use std::time::Instant;
 use std::{fs, process};
@@ -27,16 +26,14 @@ fn main() {
 
 fn run(args: &Args) -> Result<(), String> {
     let formatter = Formatter::create_from_config(args.config.as_deref(), vec![args.path.clone()])?;
-    let results = format(formatter);
+    let results = formatter.format_with_source();
 
     for (index, result) in results.iter().enumerate() {
         match result {
-            Ok(value) => {
+            Ok((original_content, value)) => {
                 if args.check {
-                    let original_content = fs::read_to_string(&args.path)
-                        .map_err(|e| format!("Failed to read file {}: {}", args.path, e))?;
-
-                    if original_content.as_str() == value {
+                    // compare with the text that was formatted: the file may have been replaced since
+                    if original_content == value {
                         println!("File is already formatted: {}", args.path);
                         return Ok(());
                     } else {
-- 
2.43.0


From 163cbbb1948c470aebb5a616c16d14ce437528e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 03/22] fix: -w replaces the file in one step, so that a
 failure or crash never leaves a part of it

---
 src/main.rs | 66 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f9d68fc..c4b6eb8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,9 @@
 use sf_afmt::args::{get_args, Args};
 use sf_afmt::formatter::Formatter;
+use std::io::Write;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
-use std::{fs, process};
+use std::{fs, io, process};
 
 fn main() {
     let start = Instant::now();
@@ -41,7 +43,7 @@ fn run(args: &Args) -> Result<(), String> {
                         return Err("Formatting check failed".to_string());
                     }
                 } else if args.write {
-                    fs::write(&args.path, value).map_err(|e| {
+                    write_back(&args.path, value).map_err(|e| {
                         format!("Failed to write formatted content to {}: {}", args.path, e)
                     })?;
                     println!("Formatted content written back to: {}\n", args.path);
@@ -59,3 +61,63 @@ fn run(args: &Args) -> Result<(), String> {
 
     Ok(())
 }
+
+/// Replaces the content of a file in one step: whatever fails, and wherever the process is interrupted, the file
+/// holds either its old content or all of `content`.
+fn write_back(path: &str, content: &str) -> io::Result<()> {
+    let target = fs::canonicalize(path)?; // a symbolic link stays a link
+
+    // a file that must not be written to is not to be replaced either
+    let metadata = fs::OpenOptions::new()
+        .write(true)
+        .open(&target)?
+        .metadata()?;
+    if !metadata.is_file() {
+        return fs::write(&target, content);
+    }
+
+    let (temp_path, temp) = match create_temp_beside(&target) {
+        Ok(created) => created,
+        Err(e) if e.kind() == io::ErrorKind::PermissionDenied => {
+            return fs::write(&target, content)
+        }
+        Err(e) => return Err(e),
+    };
+
+    let result = fill(temp, content, &metadata).and_then(|_| fs::rename(&temp_path, &target));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp_path);
+    }
+    match result {
+        // we may change the file, but not put another one of the same owner and permissions in its place
+        Err(e) if e.kind() == io::ErrorKind::PermissionDenied => fs::write(&target, content),
+        result => result,
+    }
+}
+
+fn create_temp_beside(target: &Path) -> io::Result<(PathBuf, fs::File)> {
+    let mut attempt = 0;
+    loop {
+        let temp_path = target.with_file_name(format!(".afmt-{}-{}.tmp", process::id(), attempt));
+        match fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp_path)
+        {
+            Ok(temp) => return Ok((temp_path, temp)),
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => attempt += 1,
+            Err(e) => return Err(e),
+        }
+    }
+}
+
+fn fill(mut temp: fs::File, content: &str, metadata: &fs::Metadata) -> io::Result<()> {
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::MetadataExt;
+        std::os::unix::fs::fchown(&temp, Some(metadata.uid()), Some(metadata.gid()))?;
+    }
+    temp.set_permissions(metadata.permissions())?;
+    temp.write_all(content.as_bytes())?;
+    temp.sync_all()
+}
-- 
2.43.0


From f3f24691280a6269e3e5bb70d6f14d680ec4efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 04/22] fix: keep the code around a comment that stands alone
 inside a node

---
 src/utility.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 8ce88c1..64fe5a3 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -288,9 +288,8 @@ pub fn build_with_comments<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
+    handle_members(b, result);
+    if !bucket.dangling_comments.is_empty() {
         result.push(b.concat(handle_dangling_comments(b, bucket)));
         return;
     }
@@ -309,9 +308,8 @@ pub fn build_with_comments_core<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
+    handle_members(b, result);
+    if !bucket.dangling_comments.is_empty() {
         result.push(b.concat(handle_dangling_comments(b, bucket)));
     }
 }
-- 
2.43.0


From fd88c7a67127aaf06797ce2f4a1e18e24f00b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 05/22] fix: print the comments of a WITH clause once

---
 src/data_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 67bb626..d690914 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5203,7 +5203,8 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         match self {
             Self::SimpleType(n) => {
-                result.push(n.build(b));
+                // its comments are those of the `with_type` node, printed by `SoqlWithType`
+                result.push(b.txt(&n.value));
             }
             Self::UserId(n) => {
                 result.push(b.txt_("UserId ="));
-- 
2.43.0


From 5f4f3b715c95d8068c6dca6989d6334778e72a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 06/22] fix: keep every pair of brackets of an array type with
 several dimensions

---
 src/data_model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index d690914..8136e1d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2686,6 +2686,7 @@ impl<'a> DocBuild<'a> for ArrayCreationVariant {
 
 #[derive(Debug)]
 pub struct Dimensions {
+    pub count: usize,
     pub node_context: NodeContext,
 }
 
@@ -2694,6 +2695,10 @@ impl Dimensions {
         assert_check(node, "dimensions");
 
         Self {
+            count: node
+                .children(&mut node.walk())
+                .filter(|n| n.kind() == "[")
+                .count(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2702,7 +2707,7 @@ impl Dimensions {
 impl<'a> DocBuild<'a> for Dimensions {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt("[]"));
+            result.push(b.txt("[]".repeat(self.count)));
         });
     }
 }
-- 
2.43.0


From 8e36afa989e5faf9a97d042920068741874bec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 07/22] fix: print a comment inside a literal once, with the
 literal

---
 src/data_model.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8136e1d..db0153d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5599,6 +5599,21 @@ impl ValueNode {
 
 impl<'a> DocBuild<'a> for ValueNode {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        let bucket = get_comment_bucket(&self.node_context.id);
+        if !bucket.dangling_comments.is_empty() {
+            // they are part of the value already
+            handle_pre_comments(b, bucket, result);
+            result.push(b.txt(&self.value));
+            bucket
+                .dangling_comments
+                .iter()
+                .for_each(|c| c.mark_as_printed());
+            if let Some(ref n) = self.node_context.punc {
+                result.push(n.build(b));
+            }
+            return;
+        }
+
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt(&self.value));
         });
-- 
2.43.0


From 9803634064697b52ebdc73d4597b682534742e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 08/22] fix: deeply nested code is an error of its file instead
 of the end of the process

---
 src/formatter.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index f034bcc..4930c32 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -16,6 +16,31 @@ use tree_sitter::{Node, Parser, Tree};
 #[allow(unused_imports)]
 use crate::utility::print_comment_map;
 
+/// The tree is processed recursively: code nested deeper than `MAX_TREE_DEPTH` is refused, because overflowing the stack
+/// would end the whole process, and the workers have a stack which suffices for all other code.
+const MAX_TREE_DEPTH: usize = 4000;
+const WORKER_STACK_SIZE: usize = 32 * 1024 * 1024;
+
+fn is_nested_too_deeply(tree: &Tree) -> bool {
+    let mut cursor = tree.walk();
+    let mut depth = 0;
+    loop {
+        if cursor.goto_first_child() {
+            depth += 1;
+            if depth > MAX_TREE_DEPTH {
+                return true;
+            }
+            continue;
+        }
+        while !cursor.goto_next_sibling() {
+            if !cursor.goto_parent() {
+                return false;
+            }
+            depth -= 1;
+        }
+    }
+}
+
 #[derive(Clone, Debug, Deserialize)]
 pub struct Config {
     #[serde(default = "default_max_width")]
@@ -116,7 +141,7 @@ impl Formatter {
             let config = config.clone();
             let file = file.clone();
 
-            thread::spawn(move || {
+            let worker = move || {
                 let result = std::panic::catch_unwind(|| {
                     let source_code = fs::read_to_string(Path::new(&file))
                         .map_err(|e| {
@@ -140,7 +165,11 @@ impl Formatter {
                         .send((index, Err("Thread panicked".to_string())))
                         .expect("failed to send error in tx"),
                 }
-            });
+            };
+            thread::Builder::new()
+                .stack_size(WORKER_STACK_SIZE)
+                .spawn(worker)
+                .expect("failed to spawn thread");
         }
 
         drop(tx);
@@ -188,6 +217,10 @@ impl Formatter {
         let ast_tree = parser.parse(source_code, None).unwrap();
         let root_node = &ast_tree.root_node();
 
+        if is_nested_too_deeply(&ast_tree) {
+            panic!("{}", red("The code is nested too deeply."));
+        }
+
         if root_node.has_error() {
             if let Some(error_node) = Self::find_last_error_node(root_node) {
                 let error_snippet =
-- 
2.43.0


From d92f5309e5eecbb33ef663bd24df00cc17479e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 09/22] fix: members on the first line of a file have no empty
 line between them

---
 src/enum_def.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 97e1106..caef97b 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -819,7 +819,7 @@ impl<M> BodyMember<M> {
         }
 
         node.next_named_sibling()
-            .is_some_and(|n| node.end_position().row < n.start_position().row - 1)
+            .is_some_and(|n| node.end_position().row + 1 < n.start_position().row)
     }
 }
 
-- 
2.43.0


From e63d9e633bc21587958bd26383df4fa47c2d595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 10/22] fix: keep every expression of a for statement's update
 part

---
 src/data_model.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index db0153d..e44f860 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1462,7 +1462,7 @@ impl<'a> DocBuild<'a> for ForInitOption {
 pub struct ForStatement {
     pub init: Option<ForInitOption>,
     pub condition: Option<Expression>,
-    pub update: Option<Expression>,
+    pub updates: Vec<Expression>,
     pub body: Statement,
     pub semicolons: Vec<Punctuation>,
     pub node_context: NodeContext,
@@ -1478,7 +1478,14 @@ impl ForStatement {
 
         let init = node.try_c_by_n("init").map(|n| ForInitOption::new(n));
         let condition = node.try_c_by_n("condition").map(|n| Expression::new(n));
-        let update = node.try_c_by_n("update").map(|n| Expression::new(n));
+        let updates = match node.try_c_by_n("update") {
+            Some(_) => node
+                .cs_by_n("update")
+                .into_iter()
+                .map(|n| Expression::new(n))
+                .collect(),
+            None => Vec::new(),
+        };
 
         let semicolons = Self::build_semi_colons(&node);
 
@@ -1496,7 +1503,7 @@ impl ForStatement {
         Self {
             init,
             condition,
-            update,
+            updates,
             body: Statement::new(node.c_by_n("body")),
             semicolons,
             node_context: NodeContext::with_punctuation(&node),
@@ -1529,9 +1536,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = match &self.update {
-                Some(u) => b.concat(vec![b.txt(" "), u.build(b)]),
-                None => b.nil(),
+            let update = if self.updates.is_empty() {
+                b.nil()
+            } else {
+                let docs = b.to_docs(&self.updates);
+                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+                b.concat(vec![b.txt(" "), b.group(b.intersperse(&docs, sep))])
             };
 
             let docs = vec![init, condition, update];
-- 
2.43.0


From 932493947c4066b4de16015d3d52523ce9fc57b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:31 +0000
Subject: [PATCH 11/22] fix: keep the modifiers and dimensions of the variable
 of a for-each loop

---
 src/data_model.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index e44f860..9b3cfeb 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1565,10 +1565,10 @@ impl<'a> DocBuild<'a> for ForStatement {
 
 #[derive(Debug)]
 pub struct EnhancedForStatement {
-    //pub modifiers: Option<Modifiers>,
+    pub modifiers: Option<Modifiers>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
-    //pub dimension
+    pub dimensions: Option<Dimensions>,
     pub value: Expression,
     pub body: Statement,
     pub node_context: NodeContext,
@@ -1578,12 +1578,11 @@ impl EnhancedForStatement {
     pub fn new(node: Node) -> Self {
         assert_check(node, "enhanced_for_statement");
 
-        //let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
-
         Self {
-            //modifiers,
+            modifiers: node.try_c_by_k("modifiers").map(|n| Modifiers::new(n)),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_k("dimensions").map(|n| Dimensions::new(n)),
             value: Expression::new(node.c_by_n("value")),
             body: Statement::new(node.c_by_n("body")),
             node_context: NodeContext::with_punctuation(&node),
@@ -1595,9 +1594,16 @@ impl<'a> DocBuild<'a> for EnhancedForStatement {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for ("));
+            if let Some(ref n) = self.modifiers {
+                result.push(n.build(b));
+            }
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
+            if let Some(ref n) = self.dimensions {
+                result.push(b.txt(" "));
+                result.push(n.build(b));
+            }
             result.push(b._txt_(":"));
             result.push(self.value.build(b));
             result.push(b.txt(")"));
-- 
2.43.0


From bbef382b5a683201d8efae88b6f59a60007aa3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:58 +0000
Subject: [PATCH 12/22] fix: keep the dimensions after the name of a variable,
 field or method

---
 src/data_model.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 9b3cfeb..8da9aae 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -137,8 +137,8 @@ pub struct MethodDeclaration {
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
+    pub dimensions: Option<Dimensions>,
     pub body: Option<Block>,
-    //pub dimensions
     pub node_context: NodeContext,
 }
 
@@ -151,6 +151,7 @@ impl MethodDeclaration {
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
+            dimensions: node.try_c_by_k("dimensions").map(|n| Dimensions::new(n)),
             body: node.try_c_by_n("body").map(|n| Block::new(n)),
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -168,6 +169,10 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
             result.push(b.txt(" "));
             result.push(self.name.build(b));
             result.push(self.formal_parameters.build(b));
+            if let Some(ref n) = self.dimensions {
+                result.push(b.txt(" "));
+                result.push(n.build(b));
+            }
 
             if let Some(ref n) = self.body {
                 result.push(b.txt(" "));
@@ -1199,7 +1204,7 @@ impl<'a> DocBuild<'a> for LocalVariableDeclaration {
 #[derive(Debug)]
 pub struct VariableDeclarator {
     pub name: ValueNode,
-    //pub dimenssions
+    pub dimensions: Option<Dimensions>,
     pub op: Option<ValueNode>,
     pub value: Option<VariableInitializer>,
     pub is_value_child_a_query_node: bool,
@@ -1219,6 +1224,7 @@ impl VariableDeclarator {
 
         Self {
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_k("dimensions").map(|n| Dimensions::new(n)),
             op,
             value,
             is_value_child_a_query_node,
@@ -1232,6 +1238,10 @@ impl<'a> DocBuild<'a> for VariableDeclarator {
         // TODO: handle dotted expression use-case
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let mut docs = vec![self.name.build(b)];
+            if let Some(ref n) = self.dimensions {
+                docs.push(b.txt(" "));
+                docs.push(n.build(b));
+            }
 
             if self.value.is_none() {
                 result.push(b.concat(docs));
-- 
2.43.0


From 42b3c5d9ef56c9c04bf6f4d3c56cfea9c602de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:03 +0000
Subject: [PATCH 13/22] fix: keep every source of a query's FROM clause

---
 src/data_model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8da9aae..7c915f3 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4312,7 +4312,7 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
 
 #[derive(Debug)]
 pub struct FromClause {
-    pub content: StorageVariant,
+    pub contents: Vec<StorageVariant>,
     pub node_context: NodeContext,
 }
 
@@ -4321,7 +4321,11 @@ impl FromClause {
         assert_check(node, "from_clause");
 
         Self {
-            content: StorageVariant::new(node.first_c()),
+            contents: node
+                .children_vec()
+                .into_iter()
+                .map(|n| StorageVariant::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -4331,7 +4335,9 @@ impl<'a> DocBuild<'a> for FromClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("FROM"));
-            result.push(self.content.build(b));
+            let docs = b.to_docs(&self.contents);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 474888fc1c29f2686071595d7bdd6818ba1bceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 14/22] fix: keep the USING and UPDATE clauses of a query

---
 src/data_model.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 7c915f3..4b61a22 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4209,7 +4209,7 @@ impl<'a> DocBuild<'a> for SObjectReturnQuery {
 pub struct SoqlQueryBody {
     pub select_clause: SelectClause,
     pub from_clause: FromClause,
-    //using_clause;
+    pub using_clause: Option<UsingClause>,
     pub where_clause: Option<WhereClause>,
     pub with_clause: Option<SoqlWithClause>,
     pub group_by_clause: Option<GroupByClause>,
@@ -4217,7 +4217,7 @@ pub struct SoqlQueryBody {
     pub limit_clause: Option<LimitClause>,
     pub offset_clause: Option<OffsetClause>,
     pub for_clause: Vec<ForClause>,
-    //update_c;
+    pub update_clause: Option<UpdateClause>,
     pub all_rows_clause: Option<AllRowsClause>,
     pub node_context: NodeContext,
 }
@@ -4248,10 +4248,15 @@ impl SoqlQueryBody {
             .into_iter()
             .map(|n| ForClause::new(n))
             .collect();
+        let using_clause = node.try_c_by_n("using_clause").map(|n| UsingClause::new(n));
+        let update_clause = node
+            .try_c_by_n("update_clause")
+            .map(|n| UpdateClause::new(n));
 
         Self {
             select_clause: SelectClause::new(node.c_by_n("select_clause")),
             from_clause: FromClause::new(node.c_by_n("from_clause")),
+            using_clause,
             where_clause,
             with_clause,
             group_by_clause,
@@ -4259,6 +4264,7 @@ impl SoqlQueryBody {
             limit_clause,
             offset_clause,
             for_clause,
+            update_clause,
             all_rows_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4272,6 +4278,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             docs.push(self.select_clause.build(b));
             docs.push(self.from_clause.build(b));
 
+            if let Some(ref n) = self.using_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.where_clause {
                 docs.push(n.build(b));
             }
@@ -4290,9 +4299,6 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             if let Some(ref n) = self.offset_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.all_rows_clause {
-                docs.push(n.build(b));
-            }
             if !self.for_clause.is_empty() {
                 let for_types: Vec<DocRef<'_>> =
                     self.for_clause.iter().map(|n| n.build(b)).collect();
@@ -4302,6 +4308,12 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
                 let for_clause_doc = b.concat(vec![b.txt_("FOR"), for_types_doc]);
                 docs.push(for_clause_doc);
             }
+            if let Some(ref n) = self.update_clause {
+                docs.push(n.build(b));
+            }
+            if let Some(ref n) = self.all_rows_clause {
+                docs.push(n.build(b));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
             let doc = b.intersperse(&docs, sep);
@@ -4609,7 +4621,7 @@ impl UsingLookupClause {
     pub fn new(node: Node) -> Self {
         assert_check(node, "using_lookup_clause");
 
-        let lookup_field = DottedIdentifier::new(node.c_by_n("using_lookup_clause"));
+        let lookup_field = DottedIdentifier::new(node.c_by_n("lookup_field"));
         let bind_clause = node
             .try_c_by_k("using_lookup_bind_clause")
             .map(|n| UsingLookupBindClause::new(n));
@@ -4627,8 +4639,8 @@ impl<'a> DocBuild<'a> for UsingLookupClause {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("LOOKUP"));
             result.push(self.lookup_field.build(b));
-            result.push(b.txt(" "));
             if let Some(ref n) = self.bind_clause {
+                result.push(b.txt(" "));
                 result.push(n.build(b));
             }
         });
@@ -4710,7 +4722,7 @@ impl UsingLookupBindExpression {
         assert_check(node, "using_lookup_bind_expression");
 
         Self {
-            field: ValueNode::new(node.c_by_k("field")),
+            field: ValueNode::new(node.c_by_n("field")),
             bound_value: SoqlLiteral::new(node.c_by_n("bound_value")),
             node_context: NodeContext::with_punctuation(&node),
         }
-- 
2.43.0


From 8827136365a9c930cdde46e2238c7636d7bd2930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 15/22] fix: keep every type of a query's FOR clause

---
 src/data_model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 4b61a22..16bfddf 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -6037,7 +6037,7 @@ impl<'a> DocBuild<'a> for SoqlWithType {
 
 #[derive(Debug)]
 pub struct ForClause {
-    pub for_type: ValueNode,
+    pub for_types: Vec<ValueNode>,
     pub node_context: NodeContext,
 }
 
@@ -6046,7 +6046,11 @@ impl ForClause {
         assert_check(node, "for_clause");
 
         Self {
-            for_type: ValueNode::new(node.c_by_k("for_type")),
+            for_types: node
+                .cs_by_k("for_type")
+                .into_iter()
+                .map(|n| ValueNode::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -6055,7 +6059,9 @@ impl ForClause {
 impl<'a> DocBuild<'a> for ForClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.for_type.build(b));
+            let docs = b.to_docs(&self.for_types);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 2ebf971542cec5480290bc36502aa6610797c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 16/22] fix: keep the OFFSET clause and every RETURNING clause
 of a search

---
 src/data_model.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 16bfddf..70cf27b 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3933,11 +3933,11 @@ impl<'a> DocBuild<'a> for QueryBody {
 pub struct SoslQueryBody {
     pub find_clause: FindClause,
     pub in_clause: Option<InClause>,
-    pub returning_clause: Option<ReturningClause>,
+    pub returning_clauses: Vec<ReturningClause>,
     pub with_clauses: Vec<SoslWithClause>,
     pub using_clause: Option<SoslUsingClause>,
     pub limit_clause: Option<LimitClause>,
-    //pub offset_clause: Option<OffsetClause>,
+    pub offset_clause: Option<OffsetClause>,
     pub update_clause: Option<UpdateClause>,
     pub node_context: NodeContext,
 }
@@ -3948,9 +3948,11 @@ impl SoslQueryBody {
 
         let find_clause = FindClause::new(node.c_by_k("find_clause"));
         let in_clause = node.try_c_by_k("in_clause").map(|n| InClause::new(n));
-        let returning_clause = node
-            .try_c_by_k("returning_clause")
-            .map(|n| ReturningClause::new(n));
+        let returning_clauses = node
+            .try_cs_by_k("returning_clause")
+            .into_iter()
+            .map(|n| ReturningClause::new(n))
+            .collect();
         let with_clauses = node
             .try_cs_by_k("with_clause")
             .into_iter()
@@ -3960,6 +3962,9 @@ impl SoslQueryBody {
             .try_c_by_k("sosl_using_clause")
             .map(|n| SoslUsingClause::new(n));
         let limit_clause = node.try_c_by_k("limit_clause").map(|n| LimitClause::new(n));
+        let offset_clause = node
+            .try_c_by_k("offset_clause")
+            .map(|n| OffsetClause::new(n));
         let update_clause = node
             .try_c_by_k("update_clause")
             .map(|n| UpdateClause::new(n));
@@ -3967,10 +3972,11 @@ impl SoslQueryBody {
         Self {
             find_clause,
             in_clause,
-            returning_clause,
+            returning_clauses,
             with_clauses,
             using_clause,
             limit_clause,
+            offset_clause,
             update_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -3986,9 +3992,7 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.in_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.returning_clause {
-                docs.push(n.build(b));
-            }
+            docs.extend(b.to_docs(&self.returning_clauses));
             if !self.with_clauses.is_empty() {
                 let with_clauses_docs = b.to_docs(&self.with_clauses);
                 let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -4001,6 +4005,9 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.limit_clause {
                 docs.push(n.build(b));
             }
+            if let Some(ref n) = self.offset_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.update_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From 3b295f8b26418c29e5cd00a7d2aa107e5b377005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:55 +0000
Subject: [PATCH 17/22] fix: installing never leaves a partial afmt

The move into the install directory is a copy when the temporary directory
is on another device, and the old afmt is removed first: a full disk or an
interruption cost the user the installed program. Likewise an interruption
before chmod. Complete the file next to its place and rename it.
---
 scripts/install-afmt.sh | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scripts/install-afmt.sh b/scripts/install-afmt.sh
index 669f532..dce1014 100644
--- a/scripts/install-afmt.sh
+++ b/scripts/install-afmt.sh
@@ -96,10 +96,22 @@ main() {
   echo "Extracting $filename..."
   tar -xf "${TMP_DIR}/${filename}" -C "$TMP_DIR"
 
-  # Move the afmt binary into INSTALL_DIR
+  # Move the afmt binary into INSTALL_DIR: completed there under a temporary
+  # name first, so that an afmt already installed is replaced in one step
   if [[ -f "${TMP_DIR}/${BINARY_NAME}" ]]; then
-    mv "${TMP_DIR}/${BINARY_NAME}" "$INSTALL_DIR/"
-    chmod +x "${INSTALL_DIR}/${BINARY_NAME}"
+    if [[ -d "${INSTALL_DIR}/${BINARY_NAME}" ]]; then
+      echo "Error: '${INSTALL_DIR}/${BINARY_NAME}' is a directory."
+      exit 1
+    fi
+    local staged
+    staged="$(mktemp "${INSTALL_DIR}/.${BINARY_NAME}.XXXXXX")"
+    if ! { cp "${TMP_DIR}/${BINARY_NAME}" "$staged" \
+      && chmod 755 "$staged" \
+      && mv -f "$staged" "${INSTALL_DIR}/${BINARY_NAME}"; }; then
+      rm -f "$staged"
+      echo "Error: Could not install '$BINARY_NAME' into '$INSTALL_DIR'."
+      exit 1
+    fi
   else
     echo "Error: Could not find the '$BINARY_NAME' executable in the archive."
     exit 1
-- 
2.43.0


From 11677c1545e553f8efb15d5adccc7b3d75c846bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:55 +0000
Subject: [PATCH 18/22] fix: do not join the line added to a profile with its
 last line

---
 scripts/install-afmt.sh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/install-afmt.sh b/scripts/install-afmt.sh
index dce1014..efed49b 100644
--- a/scripts/install-afmt.sh
+++ b/scripts/install-afmt.sh
@@ -158,15 +158,20 @@ main() {
 
       if [[ -n "$PROFILE_FILE" ]]; then
         echo "Adding to $PROFILE_FILE ..."
+        # A last line without a newline must not be joined with the new one
+        local newline=""
+        if [[ -s "$PROFILE_FILE" ]]; then
+          newline=$'\n'
+        fi
         if [[ "$current_shell" == "fish" ]]; then
           # For fish shell, use fish_user_paths
           mkdir -p "$(dirname "$PROFILE_FILE")"
-          echo "set -U fish_user_paths \$fish_user_paths $INSTALL_DIR" >> "$PROFILE_FILE" 2>/dev/null && \
+          echo "${newline}set -U fish_user_paths \$fish_user_paths $INSTALL_DIR" >> "$PROFILE_FILE" 2>/dev/null && \
             echo "Done! Open a new terminal or run 'exec fish' to refresh." || \
             { echo "Error: Failed to write to $PROFILE_FILE."; }
         else
           # For bash and zsh
-          echo "export PATH=\"\$PATH:$INSTALL_DIR\"" >> "$PROFILE_FILE" 2>/dev/null && \
+          echo "${newline}export PATH=\"\$PATH:$INSTALL_DIR\"" >> "$PROFILE_FILE" 2>/dev/null && \
             echo "Done! Run 'source $PROFILE_FILE' or open a new terminal." || \
             { echo "Error: Failed to write to $PROFILE_FILE."; }
         fi
-- 
2.43.0


From 8beea566bb392dd3fcd7c5d0dd0371f1efeccea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 19/22] fix: print the comments of a for statement's semicolons
 once

A for statement with an init expression and no condition took the first
semicolon, which the init expression already prints, for the missing
condition: its comments came out twice.
---
 src/data_model.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 70cf27b..6641d17 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1534,16 +1534,15 @@ impl<'a> DocBuild<'a> for ForStatement {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for "));
 
-            let mut semicolons_iter = self.semicolons.iter();
-
             let init = match &self.init {
                 Some(i) => i.build(b),
-                None => semicolons_iter.next().unwrap().build(b),
+                None => self.semicolons.first().unwrap().build(b),
             };
 
             let condition = match &self.condition {
                 Some(c) => b.concat(vec![b.txt(" "), c.build(b)]),
-                None => semicolons_iter.next().unwrap().build(b),
+                // an init expression leaves both semicolons in the list
+                None => self.semicolons.last().unwrap().build(b),
             };
 
             let update = if self.updates.is_empty() {
-- 
2.43.0


From 8b2adb716bd68edf1e42d784178907000adc570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 20/22] fix: keep signs of nested unary expressions apart

`- -a` was printed as `--a`, which decrements a.
---
 src/data_model.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 6641d17..d3a4f46 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2154,6 +2154,7 @@ impl<'a> DocBuild<'a> for WhileStatement {
 pub struct UnaryExpression {
     pub operator: String,
     pub operand: Box<Expression>,
+    pub is_spaced: bool,
     pub node_context: NodeContext,
 }
 
@@ -2162,9 +2163,15 @@ impl UnaryExpression {
         assert_check(node, "unary_expression");
 
         let operator = node.cvalue_by_n("operator");
+        let operand = node.c_by_n("operand");
+        // `- -a` must not become the decrement `--a`
+        let is_spaced =
+            matches!(operator.as_str(), "+" | "-") && operand.value().starts_with(&operator);
+
         Self {
             operator,
-            operand: Box::new(Expression::new(node.c_by_n("operand"))),
+            operand: Box::new(Expression::new(operand)),
+            is_spaced,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2174,6 +2181,9 @@ impl<'a> DocBuild<'a> for UnaryExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt(&self.operator));
+            if self.is_spaced {
+                result.push(b.txt(" "));
+            }
             result.push(self.operand.build(b));
         });
     }
-- 
2.43.0


From 949e4a3d696b0f07e19b1db332759df84d27a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 21/22] fix: keep the brackets of a NOT inside a NOT in SOQL
 conditions

`NOT (NOT a = 1)` was printed as `NOT NOT a = 1`, which is not a valid
condition.
---
 src/enum_def.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index caef97b..f3fa542 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1237,7 +1237,8 @@ impl ConditionExpression {
     fn should_parenthesize(parent_op: Option<&str>, child_op: Option<&str>) -> bool {
         // Parentheses are NOT needed if both parent and child operators are the same.
         // Otherwise, parentheses are needed to maintain correct logical grouping.
-        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child)
+        // `NOT NOT` is not a valid condition, so a nested NOT always needs them.
+        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child && parent != "NOT")
     }
 }
 
-- 
2.43.0


From 42b2e4069f52f2974a58254b70336b8761cecc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:40 +0000
Subject: [PATCH 22/22] fix: print the empty statement of an if or else once

`if (a); else b();` was printed with a second semicolon before the else,
which is a syntax error.
---
 src/data_model.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index d3a4f46..3d77658 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1370,22 +1370,32 @@ impl<'a> DocBuild<'a> for IfStatement {
             if self.consequence.is_block() {
                 result.push(b.txt(" "));
                 result.push(self.consequence.build(b));
-            } else {
+            } else if !matches!(self.consequence, Statement::SemiColumn) {
+                // an empty statement is printed as the punctuation of the condition
                 result.push(b.indent(b.nl()));
                 result.push(b.indent(self.consequence.build(b)));
             }
 
             // Handle the 'else' part
             if let Some(ref alt) = self.alternative {
+                // an empty statement is printed as the punctuation of 'else'
+                let is_empty = matches!(alt.statement, Statement::SemiColumn);
+
                 if self.consequence.is_block() {
                     result.push(b.txt(" "));
 
                     result.push(alt.else_node.build(b));
+                    if is_empty {
+                        return;
+                    }
                     result.push(b.txt(" "));
                 } else {
                     result.push(b.nl());
 
                     result.push(alt.else_node.build(b));
+                    if is_empty {
+                        return;
+                    }
 
                     if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                         result.push(b.indent(b.nl()));
-- 
2.43.0

