From 9e4deeabbb6d5f8468f0083a841a80eb5a6b0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 01/23] fix: keep the bracket variant of stage 1 scopes

---
 src/ast1/document.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 60f1691..754d39b 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -300,12 +300,11 @@ impl FromStr for Document {
                         crate::ErrorType::UnclosedScope(*variant),
                     ))
                 }
-                Buffer::Scope { content, .. } => chunks.push(Chunk::new_unchecked(
+                Buffer::Scope {
+                    content, variant, ..
+                } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
-                    ChunkVariant::Scope(Scope::new_unchecked(
-                        eval_scope!(content),
-                        ScopeVariant::Curly,
-                    )),
+                    ChunkVariant::Scope(Scope::new_unchecked(eval_scope!(content), *variant)),
                 )),
                 Buffer::Command { depth, scopes, .. } if *depth != 0 => {
                     return Err(crate::Error::new(
-- 
2.43.0


From 8421241ea8e54201dab35d4be34ffc29f9022777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 02/23] fix: keep nested brackets inside command arguments

---
 src/ast1/document.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 754d39b..aac08ee 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -454,8 +454,16 @@ impl FromStr for Document {
                         buffer_line_no =
                             line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                     }
-                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => *depth += 1,
-                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => *depth -= 1,
+                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => {
+                        *depth += 1;
+                        buffer.push(c)
+                    }
+                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => {
+                        *depth -= 1;
+                        if *depth != 0 {
+                            buffer.push(c)
+                        }
+                    }
                     c if *depth == 0 && ScopeVariant::is_closing(c) => {
                         return Err(crate::Error::new(
                             line_no,
-- 
2.43.0


From 437c1adae2924cbfb3d17d1d03546a5782396335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 03/23] fix: keep an escaped bracket or space that directly
 follows a command

---
 src/ast1/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index aac08ee..a795caa 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -411,10 +411,10 @@ impl FromStr for Document {
                     trailing,
                     ..
                 } => match c {
-                    c if *depth == 0 && ScopeVariant::is_opening(c) => {
+                    c if *depth == 0 && !escaped && ScopeVariant::is_opening(c) => {
                         buffer.push_scope(ScopeVariant::from_opening(c))
                     }
-                    c if *depth == 0 && c.is_whitespace() => trailing.push(c),
+                    c if *depth == 0 && !escaped && c.is_whitespace() => trailing.push(c),
                     c if *depth == 0 && escaped => {
                         let trailing = trailing.clone();
                         flush!();
-- 
2.43.0


From af68ea6705a5d34d56efe088076f4bb59b36db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 04/23] fix: ignore backslashes inside comments

---
 src/ast1/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index a795caa..b535fe9 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -359,7 +359,7 @@ impl FromStr for Document {
                     comment = true;
                     continue;
                 }
-                '\\' if !escaped => {
+                '\\' if !escaped && !comment => {
                     escaped = true;
                     continue;
                 }
-- 
2.43.0


From 81c3c530a87264f1786c6a2bc336fc7ffe38f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 05/23] fix: line number of a command made of an escaped line
 break

---
 src/ast1/document.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index b535fe9..f8d7eb5 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -350,6 +350,9 @@ impl FromStr for Document {
         }
 
         for c in s.chars() {
+            // the line which the current character is in
+            let char_line_no = line_no;
+
             match c {
                 '\n' => {
                     comment = false;
@@ -371,6 +374,7 @@ impl FromStr for Document {
                 Buffer::Text { .. } => match c {
                     c if escaped => {
                         flush!();
+                        buffer_line_no = char_line_no;
                         buffer = Buffer::command();
                         buffer.push(c);
 
@@ -418,6 +422,7 @@ impl FromStr for Document {
                     c if *depth == 0 && escaped => {
                         let trailing = trailing.clone();
                         flush!();
+                        buffer_line_no = char_line_no;
 
                         if !trailing.is_empty() {
                             buffer = Buffer::text();
@@ -431,7 +436,7 @@ impl FromStr for Document {
                             )?;
                         }
 
-                        buffer_line_no = line_no;
+                        buffer_line_no = char_line_no;
 
                         buffer = Buffer::command();
                         buffer.push(c);
-- 
2.43.0


From 8912527fb4abaf622bd6ab68ee9b48cc385e51ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 06/23] fix: line number of stage 1 errors inside command
 arguments

---
 src/ast1/document.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index f8d7eb5..e5d6893 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -280,12 +280,6 @@ impl FromStr for Document {
             buffer_line_no: u32,
             chunks: &mut Vec<Chunk>,
         ) -> Result<(), crate::Error> {
-            macro_rules! eval_scope {
-                ($i:ident) => {
-                    Document::from_str($i)?.chunks_owned()
-                };
-            }
-
             match buffer {
                 Buffer::Text { ref mut content } if !content.is_empty() => {
                     chunks.push(Chunk::new_unchecked(
@@ -304,7 +298,7 @@ impl FromStr for Document {
                     content, variant, ..
                 } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
-                    ChunkVariant::Scope(Scope::new_unchecked(eval_scope!(content), *variant)),
+                    ChunkVariant::Scope(Scope::new_unchecked(Document::from_str(content)?.chunks_owned(), *variant)),
                 )),
                 Buffer::Command { depth, scopes, .. } if *depth != 0 => {
                     return Err(crate::Error::new(
@@ -314,11 +308,23 @@ impl FromStr for Document {
                 }
                 Buffer::Command { label, scopes, .. } => {
                     let mut arguments = Vec::with_capacity(scopes.len());
+                    let mut line_offset = 0;
 
                     for (content, variant, preceding) in scopes.iter_mut() {
+                        line_offset += preceding.chars().filter(|c| *c == '\n').count() as u32;
+
+                        let chunks = Document::from_str(content)
+                            .map_err(|mut e| {
+                                e.line += line_offset;
+                                e
+                            })?
+                            .chunks_owned();
+
+                        line_offset += content.chars().filter(|c| *c == '\n').count() as u32;
+
                         arguments.push((
                             std::mem::take(preceding),
-                            Scope::new_unchecked(eval_scope!(content), *variant),
+                            Scope::new_unchecked(chunks, *variant),
                         ))
                     }
 
-- 
2.43.0


From 2797cda3f72647bf560cae3eb715aebc51d83ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 07/23] fix: keep a backslash that ends the document

---
 src/ast1/document.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index e5d6893..3887df6 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -493,6 +493,30 @@ impl FromStr for Document {
             escaped = false;
         }
 
+        // a backslash that ends the document is a command without a label
+        if escaped {
+            let trailing = match &buffer {
+                Buffer::Text { .. } => Some(String::new()),
+                Buffer::Command {
+                    depth: 0, trailing, ..
+                } => Some(trailing.clone()),
+                _ => None,
+            };
+
+            if let Some(trailing) = trailing {
+                flush!();
+
+                if !trailing.is_empty() {
+                    chunks.push(Chunk::new_unchecked(
+                        line_no - trailing.chars().filter(|c| *c == '\n').count() as u32,
+                        ChunkVariant::Text(trailing),
+                    ));
+                }
+
+                buffer = Buffer::command();
+            }
+        }
+
         match &buffer {
             // if its a command at the end of document,
             // there may be unflushed Text in the trailing buffer
-- 
2.43.0


From 822ff14fb4cf628efbec835fb98f76ae8e322baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 08/23] fix: line number of the whitespace after a command that
 ends the document

---
 src/ast1/document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 3887df6..83eae17 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -526,6 +526,8 @@ impl FromStr for Document {
                 flush!();
                 buffer = Buffer::text();
                 buffer.push_str(&trailing);
+                buffer_line_no =
+                    line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                 flush!();
             }
             _ => {
-- 
2.43.0


From a621629d6062dc41119a6003528dfd5c88ade744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 09/23] fix: line number of an environment whose arguments span
 lines

---
 src/ast2/chunk.rs    | 8 +++++---
 src/ast2/document.rs | 8 ++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 050cd31..0270d6b 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -42,10 +42,9 @@ impl ast1::IntoChunks for Chunk {
                         s.chars().filter(|c| c == &'\n').count()
                     }
 
-                    let end_line_no = self.line_no
+                    let content_line_no = self.line_no
                         + (lines(&prec_begin)
                             + label.chars().filter(|c| c == &'\n').count()
-                            + lines(&Document::new_unchecked(content.clone()).to_string())
                             + args
                                 .iter()
                                 .map(|(prec, arg)| {
@@ -60,6 +59,9 @@ impl ast1::IntoChunks for Chunk {
                                 })
                                 .sum::<usize>()) as u32;
 
+                    let end_line_no = content_line_no
+                        + lines(&Document::new_unchecked(content.clone()).to_string()) as u32;
+
                     let label = ast1::Scope::new_unchecked(
                         ast1::Document::from_str(&label).unwrap().chunks_owned(),
                         ast1::ScopeVariant::Curly,
@@ -80,7 +82,7 @@ impl ast1::IntoChunks for Chunk {
                     )]
                     .into_iter()
                     .chain(content.into_iter().flat_map(|mut chunk| {
-                        chunk.line_no += self.line_no - 1;
+                        chunk.line_no += content_line_no - 1;
                         chunk.into_chunks()
                     }))
                     .chain(
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index d51c0e8..6d0c443 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -201,6 +201,9 @@ impl TryFrom<crate::ast1::Document> for Document {
         let mut chunks = Vec::new();
 
         let mut buffer_stack = Vec::new();
+        // line which the outermost open environment begins in
+        let mut env_line = 0;
+        // line which the content of that environment begins in
         let mut buffer_start = 0;
         let mut env_args = Vec::new();
         let mut buffer: Vec<ast1::Chunk> = Vec::new();
@@ -288,6 +291,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                     s.chars().filter(|c| c == &'\n').count()
                                 }
 
+                                env_line = line_no;
                                 buffer_start = line_no
                                     + c.arguments()
                                         .iter()
@@ -336,7 +340,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-                                    buffer_start,
+                                    env_line,
                                     ChunkVariant::Environment(Environment::new_unchecked(
                                         ast1::Document::new_unchecked(label.chunks_owned())
                                             .to_string(),
@@ -361,7 +365,7 @@ impl TryFrom<crate::ast1::Document> for Document {
 
         if let Some(label) = buffer_stack.first() {
             return Err(crate::Error::new(
-                buffer_start,
+                env_line,
                 crate::ErrorType::UnclosedEnvironment(
                     ast1::Document::new_unchecked(label.clone()).to_string(),
                 ),
-- 
2.43.0


From 62baadcb6855c60c33d412f99b62c97c97949d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 10/23] fix: line number of stage 2 errors

---
 src/ast2/command.rs  | 10 +++++-----
 src/ast2/document.rs | 30 +++++++++++++++++++++---------
 src/ast2/scope.rs    | 27 +++++++++++++++++++++++++++
 3 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/ast2/command.rs b/src/ast2/command.rs
index 21dfafe..46caacc 100644
--- a/src/ast2/command.rs
+++ b/src/ast2/command.rs
@@ -82,11 +82,11 @@ impl TryFrom<crate::ast1::Command> for Command {
     fn try_from(value: crate::ast1::Command) -> Result<Self, Self::Error> {
         let (label, arguments_o) = value.decompose();
 
-        let mut arguments = Vec::with_capacity(arguments_o.len());
-
-        for (prec, scope) in arguments_o {
-            arguments.push((prec, scope.try_into()?))
-        }
+        let label_lines = label.chars().filter(|c| c == &'\n').count() as u32;
+        let arguments = Scope::try_from_arguments(arguments_o).map_err(|mut e| {
+            e.line += label_lines;
+            e
+        })?;
 
         Ok(Self { label, arguments })
     }
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 6d0c443..1a9bcc2 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -4,7 +4,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, ChunkVariant, Environment, IntoChunks};
+use super::{Chunk, ChunkVariant, Environment, IntoChunks, Scope};
 
 use std::{fmt::Display, mem, str::FromStr};
 
@@ -203,6 +203,8 @@ impl TryFrom<crate::ast1::Document> for Document {
         let mut buffer_stack = Vec::new();
         // line which the outermost open environment begins in
         let mut env_line = 0;
+        // line which the arguments following its label begin in
+        let mut args_start = 0;
         // line which the content of that environment begins in
         let mut buffer_start = 0;
         let mut env_args = Vec::new();
@@ -229,7 +231,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += line_no;
+                            e.line += line_no - 1;
                             return Err(e);
                         }
                     }
@@ -241,7 +243,19 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += buffer_start;
+                            e.line += buffer_start - 1;
+                            return Err(e);
+                        }
+                    }
+                };
+            }
+
+            macro_rules! map_args_e {
+                ($x:expr) => {
+                    match $x {
+                        Ok(k) => k,
+                        Err(mut e) => {
+                            e.line += args_start - 1;
                             return Err(e);
                         }
                     }
@@ -260,7 +274,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                 ast1::ChunkVariant::Command(c) => {
                     if !matches!(c.label().as_str(), "begin" | "end") {
                         if buffer_stack.is_empty() {
-                            push_chunks!(ChunkVariant::Command(c.try_into()?));
+                            push_chunks!(ChunkVariant::Command(map_e!(c.try_into())));
                         } else {
                             push_buffer!(ast1::ChunkVariant::Command(c));
                         }
@@ -292,6 +306,8 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 }
 
                                 env_line = line_no;
+                                args_start =
+                                    line_no + (lines(prec) + lines(&content.to_string())) as u32;
                                 buffer_start = line_no
                                     + c.arguments()
                                         .iter()
@@ -333,11 +349,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 let (prec_end, label) = c.arguments_owned().remove(0);
                                 let arguments = std::mem::take(&mut env_args);
 
-                                let mut args_new = Vec::with_capacity(arguments.len());
-
-                                for (prec, scope) in arguments {
-                                    args_new.push((prec, scope.try_into()?))
-                                }
+                                let args_new = map_args_e!(Scope::try_from_arguments(arguments));
 
                                 chunks.push(Chunk::new_unchecked(
                                     env_line,
diff --git a/src/ast2/scope.rs b/src/ast2/scope.rs
index 3b668c2..d9b96a9 100644
--- a/src/ast2/scope.rs
+++ b/src/ast2/scope.rs
@@ -48,6 +48,33 @@ impl Scope {
     }
 }
 
+impl Scope {
+    /// Maps a list of arguments, error lines are relative to the start of the list
+    pub(super) fn try_from_arguments(
+        originals: Vec<(String, ast1::Scope)>,
+    ) -> Result<Vec<(String, Self)>, crate::Error> {
+        let mut arguments = Vec::with_capacity(originals.len());
+        let mut line_offset = 0;
+
+        for (prec, original) in originals {
+            line_offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let lines = original.lines();
+
+            arguments.push((
+                prec,
+                original.try_into().map_err(|mut e: crate::Error| {
+                    e.line += line_offset;
+                    e
+                })?,
+            ));
+
+            line_offset += lines - 1;
+        }
+
+        Ok(arguments)
+    }
+}
+
 impl Validate for Scope {
     fn validate(&self) -> Result<(), crate::InternalError> {
         for chunk in self.chunks() {
-- 
2.43.0


From 6cd03be3fe378e579019912bd4974f6d7838388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 11/23] fix: line numbers when lowering a stage 3 document

---
 src/ast2/document.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 1a9bcc2..9fed859 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -150,21 +150,12 @@ impl From<ast3::Document> for Document {
 
         let mut out = Document::new_unchecked(preamable);
 
-        let body_offset = body_args
-            .iter()
-            .map(|(s, arg)| s.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1)
-            .sum::<u32>()
-            + body_begin_prec.chars().filter(|c| c == &'\n').count() as u32;
         let body_chunks = body
             .into_iter()
             .flat_map(ast3::Chunk::into_chunks)
-            .map(|mut chunk| {
-                *chunk.line_no_mut() += body_offset;
-                chunk
-            })
             .collect::<Vec<_>>();
         let body = Chunk::new_unchecked(
-            prem_lines,
+            prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
                 "document".to_string(),
                 body_args
@@ -177,7 +168,7 @@ impl From<ast3::Document> for Document {
             )),
         );
 
-        let trailing_offset = body.lines() + prem_lines - 2;
+        let trailing_offset = body.lines() + prem_lines - 1;
 
         out.push_chunk_unchecked(body);
 
-- 
2.43.0


From 75afad1222c740bf76e14ab3889d8c8d963eeb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 12/23] fix: keep the whitespace between \end and {document} in
 stage 3

---
 src/ast3/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 1d2944a..0efd58e 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -479,7 +479,7 @@ impl Display for Document {
                         ChunkVariant::Command(Command::new_unchecked(
                             "end".to_string(),
                             vec![(
-                                self.body_begin_prec.clone(),
+                                self.body_end_prec.clone(),
                                 Scope::new_unchecked(
                                     vec![Chunk::new_unchecked(
                                         1,
-- 
2.43.0


From 4cf5c7429a2cf0f04ed6acbf523e3ef8abc0439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 13/23] fix: keep the body when a second document environment
 follows

---
 src/ast3/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 0efd58e..47bcaa6 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -289,7 +289,9 @@ impl TryFrom<ast2::Document> for Document {
             let (line_no, variant) = chunk.decompose();
 
             match variant {
-                ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
+                ast2::ChunkVariant::Environment(env)
+                    if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
+                {
                     let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
                     construct.body_args = args;
                     construct.body = content;
-- 
2.43.0


From 1f4434f7efb7f48adb22e86ee727012775b9bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 14/23] fix: keep the keys and values of documentclass options

---
 src/ast3/document.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 47bcaa6..51ec8ac 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -346,6 +346,7 @@ impl TryFrom<ast2::Document> for Document {
                                             BufferMode::Prec => {
                                                 prec.push_str(&buffer);
                                                 buffer.clear();
+                                                arg.push(c);
                                                 buffermode = BufferMode::Arg;
                                             }
                                             BufferMode::Arg if !c.is_whitespace() => arg.push(c),
@@ -398,14 +399,11 @@ impl TryFrom<ast2::Document> for Document {
                                         {
                                             let mut val_started = false;
 
-                                            for c in k.chars() {
+                                            for c in v.chars() {
                                                 if c.is_whitespace() && !val_started {
                                                     equal_post.push(c)
                                                 } else {
-                                                    if val_started {
-                                                        val_started = true;
-                                                    }
-
+                                                    val_started = true;
                                                     val.push(c)
                                                 }
                                             }
-- 
2.43.0


From ed076449ff29c138316a9da80d2b164601c2c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 15/23] fix: count the lines of the document environment in
 stage 3

---
 src/ast3/document.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 51ec8ac..6f483bd 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -55,12 +55,23 @@ impl Validate for Document {
 
 impl Lines for Document {
     fn lines(&self) -> u32 {
+        fn lines(s: &str) -> u32 {
+            s.chars().filter(|c| c == &'\n').count() as u32
+        }
+
         self.preamable
             .iter()
             .chain(self.body.iter())
             .chain(self.trailing.iter())
             .map(|chunk| chunk.lines() - 1)
             .sum::<u32>()
+            + self
+                .body_args
+                .iter()
+                .map(|(prec, arg)| lines(prec) + arg.lines() - 1)
+                .sum::<u32>()
+            + lines(&self.body_begin_prec)
+            + lines(&self.body_end_prec)
             + 1
     }
 }
-- 
2.43.0


From 8a2a9c406a581a50c11b00e7024e1874022ca29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 16/23] fix: keep nested maths brackets

---
 src/ast3/mathsblock.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 9463944..8159ce0 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -109,13 +109,21 @@ impl MathsBlock {
                     if cmd.label() == "("
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "["
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == ")"
@@ -153,13 +161,21 @@ impl MathsBlock {
                     if cmd.label() == ")"
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "]"
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
-- 
2.43.0


From 835e539710d8390e24e440c8032b6644eb8ff758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 17/23] fix: keep a single dollar inside a maths block opened
 by two dollars

---
 src/ast3/mathsblock.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 8159ce0..3eacc01 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -305,10 +305,21 @@ impl MathsBlock {
                                 | MathsMode::DoubleDollar(MathsVariant::Brackets) => {}
                             }
                         } else {
+                            // a single dollar does not close a block opened by two
+                            if mode == MathsMode::DoubleClosing {
+                                mode = MathsMode::DoubleDollar(MathsVariant::Dollars);
+                                text_buffer.push('$');
+                            }
+
                             text_buffer.push(c)
                         }
                     }
 
+                    if mode == MathsMode::DoubleClosing {
+                        mode = MathsMode::DoubleDollar(MathsVariant::Dollars);
+                        text_buffer.push('$');
+                    }
+
                     push_str!()
                 }
                 _ => buffer.push(ast2::Chunk::new_unchecked(line_no, variant)),
-- 
2.43.0


From cfeb8fe65734f089d09e8fd51e3e39a1fbcf7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 18/23] fix: content and line numbers of maths blocks

---
 src/ast3/mathsblock.rs | 108 ++++++++++++++++++++++-------------------
 1 file changed, 59 insertions(+), 49 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 3eacc01..da229a2 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -62,6 +62,33 @@ impl Lines for MathsBlock {
 }
 
 impl MathsBlock {
+    /// Creates the maths block that starts in a line, from the chunks in between its delimiters
+    fn from_content(
+        line_no: u32,
+        variant: MathsVariant,
+        r#type: MathsType,
+        content: Vec<ast2::Chunk>,
+    ) -> Result<Chunk, crate::Error> {
+        // line numbers in a maths block are relative to its start
+        let content = content
+            .into_iter()
+            .map(|mut chunk| {
+                *chunk.line_no_mut() -= line_no - 1;
+                chunk
+            })
+            .collect();
+
+        let content = Self::from_chunks(content).map_err(|mut e| {
+            e.line += line_no - 1;
+            e
+        })?;
+
+        Ok(Chunk::new_unchecked(
+            line_no,
+            ChunkVariant::MathsBlock(Self::new_unchecked(variant, r#type, content)),
+        ))
+    }
+
     /// Maps a `Vec<ast2::Chunk>` to `Vec<Chunk>` with MathsBlocks
     pub fn from_chunks(chunks: Vec<ast2::Chunk>) -> Result<Vec<Chunk>, crate::Error> {
         #[derive(PartialEq)]
@@ -132,14 +159,12 @@ impl MathsBlock {
                 {
                     mode = MathsMode::None;
                     depth = 0;
-                    out.push(Chunk::new_unchecked(
+                    out.push(Self::from_content(
                         buffer_line,
-                        ChunkVariant::MathsBlock(Self::new_unchecked(
-                            MathsVariant::Brackets,
-                            MathsType::Inline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
-                        )),
-                    ))
+                        MathsVariant::Brackets,
+                        MathsType::Inline,
+                        std::mem::take(&mut buffer),
+                    )?)
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "]"
@@ -148,14 +173,12 @@ impl MathsBlock {
                 {
                     mode = MathsMode::None;
                     depth = 0;
-                    out.push(Chunk::new_unchecked(
+                    out.push(Self::from_content(
                         buffer_line,
-                        ChunkVariant::MathsBlock(Self::new_unchecked(
-                            MathsVariant::Brackets,
-                            MathsType::Outline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
-                        )),
-                    ))
+                        MathsVariant::Brackets,
+                        MathsType::Outline,
+                        std::mem::take(&mut buffer),
+                    )?)
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == ")"
@@ -227,6 +250,7 @@ impl MathsBlock {
                                 MathsMode::None => {
                                     push_str!();
                                     mode = MathsMode::SingleDollar(MathsVariant::Dollars);
+                                    buffer_line = cursor_line_no;
                                     text_buffer_line = cursor_line_no;
                                 }
                                 MathsMode::SingleDollar(MathsVariant::Dollars)
@@ -249,23 +273,12 @@ impl MathsBlock {
                                         ));
                                     }
 
-                                    out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
-                                        ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
-                                            MathsVariant::Dollars,
-                                            MathsType::Outline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
-                                            )?,
-                                        )),
-                                    ));
+                                    out.push(Self::from_content(
+                                        buffer_line,
+                                        MathsVariant::Dollars,
+                                        MathsType::Outline,
+                                        std::mem::take(&mut buffer),
+                                    )?);
 
                                     text_buffer_line = cursor_line_no;
                                 }
@@ -281,23 +294,12 @@ impl MathsBlock {
                                         ));
                                     }
 
-                                    out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
-                                        ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
-                                            MathsVariant::Dollars,
-                                            MathsType::Inline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
-                                            )?,
-                                        )),
-                                    ));
+                                    out.push(Self::from_content(
+                                        buffer_line,
+                                        MathsVariant::Dollars,
+                                        MathsType::Inline,
+                                        std::mem::take(&mut buffer),
+                                    )?);
 
                                     text_buffer_line = cursor_line_no;
                                 }
@@ -320,7 +322,15 @@ impl MathsBlock {
                         text_buffer.push('$');
                     }
 
-                    push_str!()
+                    if mode == MathsMode::None {
+                        push_str!()
+                    } else if !text_buffer.is_empty() {
+                        // text inside a maths block that has yet to be closed
+                        buffer.push(ast2::Chunk::new_unchecked(
+                            text_buffer_line,
+                            ast2::ChunkVariant::Text(text_buffer),
+                        ))
+                    }
                 }
                 _ => buffer.push(ast2::Chunk::new_unchecked(line_no, variant)),
             }
-- 
2.43.0


From 4c48db8e30ca8369bc7f805c72934ec070c680bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 19/23] fix: line number of stage 3 errors

---
 src/ast3/command.rs     | 10 +++++-----
 src/ast3/document.rs    |  7 ++++++-
 src/ast3/environment.rs | 24 +++++++++++++++++++-----
 src/ast3/mathsblock.rs  | 19 ++++++++++++++++---
 src/ast3/scope.rs       | 27 +++++++++++++++++++++++++++
 5 files changed, 73 insertions(+), 14 deletions(-)

diff --git a/src/ast3/command.rs b/src/ast3/command.rs
index 48ccd85..cb761cd 100644
--- a/src/ast3/command.rs
+++ b/src/ast3/command.rs
@@ -67,11 +67,11 @@ impl TryFrom<ast2::Command> for Command {
     fn try_from(value: ast2::Command) -> Result<Self, Self::Error> {
         let (label, args) = value.decompose();
 
-        let mut args_new = Vec::with_capacity(args.len());
-
-        for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
-        }
+        let label_lines = label.chars().filter(|c| c == &'\n').count() as u32;
+        let args_new = Scope::try_from_arguments(args).map_err(|mut e| {
+            e.line += label_lines;
+            e
+        })?;
 
         Ok(Self::new_unchecked(label, args_new))
     }
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 6f483bd..a519c47 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -303,7 +303,12 @@ impl TryFrom<ast2::Document> for Document {
                 ast2::ChunkVariant::Environment(env)
                     if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
                 {
-                    let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
+                    let (_, args, content, begin, end) = Environment::try_from(env)
+                        .map_err(|mut e| {
+                            e.line += line_no - 1;
+                            e
+                        })?
+                        .decompose();
                     construct.body_args = args;
                     construct.body = content;
                     construct.body_begin_prec = begin;
diff --git a/src/ast3/environment.rs b/src/ast3/environment.rs
index e382aad..aa06ed2 100644
--- a/src/ast3/environment.rs
+++ b/src/ast3/environment.rs
@@ -88,16 +88,30 @@ impl TryFrom<ast2::Environment> for Environment {
     fn try_from(value: ast2::Environment) -> Result<Self, Self::Error> {
         let (label, args, content, prec_begin, prec_end) = value.decompose();
 
-        let mut args_new = Vec::with_capacity(args.len());
-
-        for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+        fn lines(s: &str) -> u32 {
+            s.chars().filter(|c| c == &'\n').count() as u32
         }
 
+        let label_lines = lines(&prec_begin) + lines(&label);
+        let args_lines = args
+            .iter()
+            .map(|(prec, arg)| lines(prec) + arg.lines() - 1)
+            .sum::<u32>();
+
+        let args_new = Scope::try_from_arguments(args).map_err(|mut e| {
+            e.line += label_lines;
+            e
+        })?;
+
+        let content = MathsBlock::from_chunks(content).map_err(|mut e| {
+            e.line += label_lines + args_lines;
+            e
+        })?;
+
         Ok(Self::new_unchecked(
             label,
             args_new,
-            Paragraph::from_chunks(MathsBlock::from_chunks(content)?),
+            Paragraph::from_chunks(content),
             prec_begin,
             prec_end,
         ))
diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index da229a2..959dfb6 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -109,6 +109,19 @@ impl MathsBlock {
         for chunk in chunks {
             let (line_no, variant) = chunk.decompose();
 
+            // map errors to the line relative to the start of chunks
+            macro_rules! map_e {
+                ($x:expr) => {
+                    match $x {
+                        Ok(k) => k,
+                        Err(mut e) => {
+                            e.line += line_no - 1;
+                            return Err(e);
+                        }
+                    }
+                };
+            }
+
             match variant {
                 ast2::ChunkVariant::Command(cmd)
                     if mode == MathsMode::None && matches!(cmd.label().as_str(), ")" | "]") =>
@@ -203,19 +216,19 @@ impl MathsBlock {
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Scope(s.try_into()?),
+                        ChunkVariant::Scope(map_e!(s.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Environment(env) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Environment(env.try_into()?),
+                        ChunkVariant::Environment(map_e!(env.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Command(cmd) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Command(cmd.try_into()?),
+                        ChunkVariant::Command(map_e!(cmd.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Text(s)
diff --git a/src/ast3/scope.rs b/src/ast3/scope.rs
index 8f58aa0..a547bb8 100644
--- a/src/ast3/scope.rs
+++ b/src/ast3/scope.rs
@@ -67,6 +67,33 @@ impl TryFrom<ast2::Scope> for Scope {
     }
 }
 
+impl Scope {
+    /// Maps a list of arguments, error lines are relative to the start of the list
+    pub(super) fn try_from_arguments(
+        originals: Vec<(String, ast2::Scope)>,
+    ) -> Result<Vec<(String, Self)>, crate::Error> {
+        let mut arguments = Vec::with_capacity(originals.len());
+        let mut line_offset = 0;
+
+        for (prec, original) in originals {
+            line_offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let lines = original.lines();
+
+            arguments.push((
+                prec,
+                original.try_into().map_err(|mut e: crate::Error| {
+                    e.line += line_offset;
+                    e
+                })?,
+            ));
+
+            line_offset += lines - 1;
+        }
+
+        Ok(arguments)
+    }
+}
+
 impl Validate for Scope {
     fn validate(&self) -> Result<(), crate::InternalError> {
         for chunk in self.chunks() {
-- 
2.43.0


From 481b0283c023529a290428e33e3021c99469edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 20/23] fix: line numbers of the trailing section of a stage 3
 document

---
 src/ast3/document.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index a519c47..e6a7729 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -296,6 +296,9 @@ impl TryFrom<ast2::Document> for Document {
 
         let mut cursor = CursorState::Preamable;
 
+        // lines before the trailing section, where line numbers start from 1 again
+        let mut trailing_offset = 0;
+
         for chunk in value.chunks_owned() {
             let (line_no, variant) = chunk.decompose();
 
@@ -303,6 +306,8 @@ impl TryFrom<ast2::Document> for Document {
                 ast2::ChunkVariant::Environment(env)
                     if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
                 {
+                    trailing_offset = line_no + env.lines() - 2;
+
                     let (_, args, content, begin, end) = Environment::try_from(env)
                         .map_err(|mut e| {
                             e.line += line_no - 1;
@@ -442,12 +447,20 @@ impl TryFrom<ast2::Document> for Document {
                 _ if cursor == CursorState::Preamable => {
                     preamable.push(ast2::Chunk::new_unchecked(line_no, variant))
                 }
-                _ => trailing.push(ast2::Chunk::new_unchecked(line_no, variant)),
+                _ => trailing.push(ast2::Chunk::new_unchecked(
+                    line_no - trailing_offset,
+                    variant,
+                )),
             }
         }
 
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
-        construct.trailing = Paragraph::from_chunks(MathsBlock::from_chunks(trailing)?);
+        construct.trailing = Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(
+            |mut e| {
+                e.line += trailing_offset;
+                e
+            },
+        )?);
 
         Ok(construct)
     }
-- 
2.43.0


From af2afc1dba6438d938281f3e9715823bcf7964b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 21/23] fix: line number of a paragraph break of three or more
 newlines

---
 src/ast3/paragraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast3/paragraph.rs b/src/ast3/paragraph.rs
index 588a649..a7c3684 100644
--- a/src/ast3/paragraph.rs
+++ b/src/ast3/paragraph.rs
@@ -33,7 +33,10 @@ impl Paragraph {
                             buffer.push(c);
                         }
                         '\n' => {
-                            buffer_line = line_no;
+                            if consec_newlines == 0 {
+                                buffer_line = line_no;
+                            }
+
                             consec_newlines += 1;
                             line_no += 1;
 
-- 
2.43.0


From b1372640ce196772214e8074ef3e2953c6c682bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 22/23] fix: reject a push that merges two texts into a
 paragraph break

---
 src/ast3/document.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index e6a7729..f91e608 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -156,6 +156,16 @@ impl Document {
         vec.push(chunk)
     }
 
+    /// Check that a text merged into the text before it contains no paragraph break
+    fn validate_merge(vec: &[Chunk], variant: &ChunkVariant) -> Result<(), InternalError> {
+        match (vec.last().map(Chunk::variant), variant) {
+            (Some(ChunkVariant::Text(last)), ChunkVariant::Text(s)) => {
+                ChunkVariant::Text(format!("{last}{s}")).validate()
+            }
+            _ => Ok(()),
+        }
+    }
+
     /// Push a Chunk to a `Vec<Chunk>`
     fn push_chunk_vec(vec: &mut Vec<Chunk>, chunk: Chunk) -> Result<(), InternalError> {
         chunk.validate()?;
@@ -172,6 +182,7 @@ impl Document {
             });
         }
 
+        Self::validate_merge(vec, chunk.variant())?;
         Self::push_chunk_vec_unchecked(vec, chunk);
         Ok(())
     }
@@ -188,6 +199,7 @@ impl Document {
     /// Push a ChunkVariant to a `Vec<Chunk>`
     fn push_vec(vec: &mut Vec<Chunk>, variant: ChunkVariant) -> Result<(), InternalError> {
         variant.validate()?;
+        Self::validate_merge(vec, &variant)?;
         Self::push_vec_unchecked(vec, variant);
         Ok(())
     }
-- 
2.43.0


From 097fabd036e0b66aefddc63d451088b081219f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 23/23] fix: validate the arguments of the document environment

---
 src/ast3/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index f91e608..e5b50ef 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -49,6 +49,10 @@ impl Validate for Document {
             }
         }
 
+        for (_, arg) in self.body_args.iter() {
+            arg.validate()?
+        }
+
         Ok(())
     }
 }
-- 
2.43.0

