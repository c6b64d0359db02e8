From 10fcd991f347ffc14fb1ca906764df0ad8606f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 01/16] fix: count the bytes of a character, not one, when the
 lexer advances

A token that ends with a non-ASCII character (a comment, typically) ended in
the middle of that character, and slicing the source panicked.
---
 src/parser/lexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index fe6a8f1..8cc15aa 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -78,7 +78,7 @@ impl<'a> Lexer<'a> {
     fn next(&mut self) -> Option<char> {
         match self.chars.next() {
             Some((i, c)) => {
-                self.current.pos = i + 1;
+                self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
                 if c == '\n' {
                     self.current.line += 1;
-- 
2.43.0


From 0c41bbe7e5c24b3212b3466cf4d969fa581e1b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 02/16] fix: do not take the opening star of a block comment
 for its closing one

---
 src/parser/lexing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 8cc15aa..bbeddfd 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -297,6 +297,8 @@ impl<'a> Lexer<'a> {
 
     /// Scan the slice that is supposed to be a block comment
     fn lex_blockcomment(&mut self) {
+        // The opening star doesn't belong to the closing `*/`
+        self.next();
         while let Some(c) = self.next() {
             if c == '*' {
                 if let Some(c) = self.peek() {
-- 
2.43.0


From 46c62dfcc74a0c9d4612f646971bf693bb7e4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 03/16] fix: report a stuck parser as a syntax error instead of
 panicking

A parser that ran out of lifes, met the end of file where it wanted to skip
a token, or had no token at all, brought the whole run down with a panic.
---
 src/parser/parsing.rs | 56 +++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 859ac97..7c57c54 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -11,6 +11,9 @@ pub fn events(
 ) -> (Vec<SyntaxEvent>, Vec<String>) {
     let mut parser = Parser::new(name, tokens);
     parser.parse(start);
+    if parser.stuck.get() {
+        parser.report(String::from("Parser stuck"));
+    }
     (parser.events, parser.errors)
 }
 
@@ -28,6 +31,9 @@ struct Parser<'a> {
     pos: usize,
     /// Parser lifes
     lifes: Cell<u32>,
+    /// `true` if parser ran out of lifes. From then on it behaves as if
+    /// it was at the end of file, so that every rule unwinds.
+    stuck: Cell<bool>,
 }
 
 impl<'a> Parser<'a> {
@@ -138,6 +144,7 @@ impl<'a> Parser<'a> {
             errors: Vec::new(),
             pos: 0,
             lifes: Cell::new(100),
+            stuck: Cell::new(false),
         }
     }
 
@@ -160,9 +167,12 @@ impl<'a> Parser<'a> {
         self.events.push(SyntaxEvent::Exit);
     }
 
-    /// Advance the parser, consume the token and push it into the events vector
+    /// Advance the parser, consume the token and push it into the events vector.
+    /// There is nothing to consume at the end of file.
     fn advance(&mut self) {
-        assert!(!self.eof());
+        if self.eof() {
+            return;
+        }
         self.events.push(SyntaxEvent::Advance);
         self.pos += 1;
         self.lifes.set(100);
@@ -170,13 +180,14 @@ impl<'a> Parser<'a> {
 
     /// Return `true` if parser reached the end of file
     fn eof(&self) -> bool {
-        self.pos == self.tokens.len()
+        self.stuck.get() || self.pos == self.tokens.len()
     }
 
     /// Return type of the n-th token counting from the current one.
     fn nth(&self, n: usize) -> ModelicaToken {
         if self.lifes.get() == 0 {
-            self.blowup();
+            self.stuck.set(true);
+            return ModelicaToken::EOF;
         }
         self.lifes.set(self.lifes.get() - 1);
         self.tokens
@@ -184,18 +195,6 @@ impl<'a> Parser<'a> {
             .map_or(ModelicaToken::EOF, |tok| tok.kind)
     }
 
-    fn blowup(&self) {
-        let tok = if !self.eof() {
-            self.tokens.get(self.pos).unwrap()
-        } else {
-            self.tokens.last().unwrap()
-        };
-        panic!(
-            "{}:{}:{}: Parser stuck",
-            self.name, tok.start.line, tok.start.col
-        );
-    }
-
     /// Return `true` if current token matches the specified type
     fn check(&self, typ: ModelicaToken) -> bool {
         self.nth(0) == typ
@@ -218,22 +217,21 @@ impl<'a> Parser<'a> {
 
     /// Mark currently parsed token as erroneus.
     fn error(&mut self, msg: String) {
-        if let Some(tok) = self.tokens.get(self.pos) {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name, tok.start.line, tok.start.col, msg
-            ));
-        } else {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name,
-                self.tokens.last().unwrap().start.line,
-                self.tokens.last().unwrap().start.col,
-                msg
-            ));
+        // Stuck parser is only unwinding
+        if !self.stuck.get() {
+            self.report(msg);
         }
     }
 
+    /// Add an error at the current token. At the end of file use the last
+    /// token instead.
+    fn report(&mut self, msg: String) {
+        let tok = self.tokens.get(self.pos).or(self.tokens.last());
+        let (line, col) = tok.map_or((1, 1), |tok| (tok.start.line, tok.start.col));
+        self.errors
+            .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
+    }
+
     fn advance_with_error(&mut self, msg: String) {
         self.error(msg);
         let mark = self.enter();
-- 
2.43.0


From 4628f0a6b639ea1d079584fa015493efe371a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:49 +0000
Subject: [PATCH 04/16] fix: keep comments that precede the first class or
 follow the last one

---
 src/formatter/formatting.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index eeb71b9..26bbb63 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -109,6 +109,7 @@ pub fn format(tree: Tree, comments: Vec<Token>) -> Vec<Marker> {
         SyntaxKind::AnnotationClause => annotation_clause(&mut f, tree),
         SyntaxKind::Error => (),
     }
+    f.handle_end();
     f.markers
 }
 
@@ -213,6 +214,22 @@ impl Formatter {
         self.prev_tok = tok.kind;
         self.markers.push(Marker::Token(tok.text));
     }
+
+    /// Insert comments that follow the last token
+    fn handle_end(&mut self) {
+        let mut line = self.prev_line;
+        for comment in self.comments.by_ref() {
+            if !self.markers.is_empty() {
+                self.markers.push(match comment.start.line - line {
+                    0 => Marker::Space,
+                    1 => Marker::Break,
+                    _ => Marker::Blank,
+                });
+            }
+            self.markers.push(Marker::Token(comment.text));
+            line = comment.end.line;
+        }
+    }
 }
 
 fn stored_definition(f: &mut Formatter, tree: Tree) {
@@ -221,7 +238,10 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             Child::Tree(tree) => match tree.kind {
                 SyntaxKind::Name => name(f, tree),
                 SyntaxKind::ClassDefinition => {
-                    if f.prev_tok == ModelicaToken::Semicolon {
+                    // Only comments may precede the first class
+                    let is_commented =
+                        f.prev_tok == ModelicaToken::EOF && tree.start().idx > 0;
+                    if f.prev_tok == ModelicaToken::Semicolon || is_commented {
                         f.handle_break(tree.start(), Blank::Legal);
                     }
                     class_definition(f, tree);
-- 
2.43.0


From 218b3f315b7b50addb93a5f59aa8d1e852d277ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 05/16] fix: keep comments placed where the line is not wrapped

---
 src/formatter/formatting.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 26bbb63..e999b22 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -208,13 +208,36 @@ impl Formatter {
 
     /// Collect token marker and update the last token data
     fn handle_token(&mut self, tok: Token) {
-        // Discard comments, as they are only allowed when line is wrapped
-        let _ = self.comments_before(&tok);
+        // Comments are expected only when line is wrapped, but those found in
+        // other places must be kept as well
+        let (inlines, comments) = self.comments_before(&tok);
+        for comment in inlines.into_iter().chain(comments) {
+            self.insert_comment(comment);
+        }
         self.prev_line = tok.end.line;
         self.prev_tok = tok.kind;
         self.markers.push(Marker::Token(tok.text));
     }
 
+    /// Insert the comment between two tokens of the same line
+    fn insert_comment(&mut self, comment: Token) {
+        let last = self
+            .markers
+            .iter()
+            .rfind(|m| !matches!(m, Marker::Indent | Marker::Dedent));
+        if let Some(Marker::Token(_)) = last {
+            self.markers.push(Marker::Space);
+        }
+        self.markers.push(Marker::Token(comment.text));
+        if comment.kind == ModelicaToken::LineComment {
+            self.markers.push(Marker::Indent);
+            self.markers.push(Marker::Break);
+            self.markers.push(Marker::Dedent);
+        } else {
+            self.markers.push(Marker::Space);
+        }
+    }
+
     /// Insert comments that follow the last token
     fn handle_end(&mut self) {
         let mut line = self.prev_line;
-- 
2.43.0


From eb43fb2f5275a623c9ac7b57466561fa35c01faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 06/16] fix: count lines from the end of a multiline inline
 comment

Blank lines were added around comments that followed it, so formatting the
formatted code changed it again.
---
 src/formatter/formatting.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index e999b22..4001bd3 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -143,19 +143,21 @@ impl Formatter {
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
         let (inlines, comments) = self.comments_before(tok);
+        let mut line = self.prev_line;
         for comment in inlines {
             if !self.markers.is_empty() {
                 self.markers.push(Marker::Space);
             }
+            line = comment.end.line;
             self.markers.push(Marker::Token(comment.text));
         }
         if let Blank::Required = blanks {
             self.markers.push(Marker::Blank);
         }
-        let mut line = self.prev_line;
-        for comment in comments {
+        let is_commented = !comments.is_empty();
+        for (idx, comment) in comments.into_iter().enumerate() {
             if let Blank::Required = blanks {
-                if line > self.prev_line {
+                if idx > 0 {
                     if comment.start.line - line > 1 {
                         self.markers.push(Marker::Blank);
                     } else {
@@ -178,7 +180,7 @@ impl Formatter {
             }
         } else if let Blank::Illegal = blanks {
             self.markers.push(Marker::Break);
-        } else if line > self.prev_line {
+        } else if is_commented {
             if tok.start.line - line > 1 {
                 self.markers.push(Marker::Blank);
             } else {
@@ -192,9 +194,12 @@ impl Formatter {
     fn comments_before(&mut self, tok: &Token) -> (Vec<Token>, Vec<Token>) {
         let mut comments = Vec::new();
         let mut inlines = Vec::new();
+        let mut line = self.prev_line;
         while let Some(comment) = self.comments.peek() {
             if comment.idx < tok.idx {
-                if comment.start.line == self.prev_line {
+                // Inline block comment may end in one of the next lines
+                if comment.start.line == line && comments.is_empty() {
+                    line = comment.end.line;
                     inlines.push(self.comments.next().unwrap());
                 } else {
                     comments.push(self.comments.next().unwrap());
-- 
2.43.0


From 4a57708736f3cf2c576b6c93d0a4c545df6e6639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 07/16] fix: wrap lists whose elements take more than one line
 once formatted

A list written in one line whose elements have descriptions, annotations or
constraining clauses was wrapped only by the second formatting.
---
 src/formatter/formatting.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 4001bd3..6d614b7 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -260,6 +260,15 @@ impl Formatter {
     }
 }
 
+/// Return `true` if the formatted tree takes more than one line: it either does
+/// so already or contains a production that always starts in a new line
+fn is_wrapped(tree: &Tree) -> bool {
+    tree.is_multiline()
+        || tree.contains(SyntaxKind::DescriptionString)
+        || tree.contains(SyntaxKind::Description)
+        || tree.contains(SyntaxKind::ConstrainingClause)
+}
+
 fn stored_definition(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
@@ -803,7 +812,7 @@ fn constraining_clause(f: &mut Formatter, tree: Tree) {
 
 fn class_or_inheritance_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline() && tree.len() > 2;
+    let is_multiline = is_wrapped(&tree) && tree.len() > 2;
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
@@ -895,7 +904,7 @@ fn type_prefix(f: &mut Formatter, tree: Tree) {
 }
 
 fn component_list(f: &mut Formatter, tree: Tree) {
-    let is_multiline = tree.is_multiline();
+    let is_multiline = is_wrapped(&tree);
     let children_count = tree.len();
     if is_multiline && children_count > 1 {
         f.markers.push(Marker::Indent);
@@ -998,9 +1007,7 @@ fn modification_expression(f: &mut Formatter, tree: Tree) {
 
 fn class_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline()
-        || tree.contains(SyntaxKind::DescriptionString)
-        || tree.contains(SyntaxKind::Description);
+    let is_multiline = is_wrapped(&tree);
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
-- 
2.43.0


From aceccefa449ba488fc0905214ea3fd10079c199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 08/16] fix: count a lone carriage return as a line break

It ends a line comment, yet tokens placed before and after it were seen as if
they were in the same line, so formatting the formatted code changed it again.
---
 src/parser/lexing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index bbeddfd..2db28cd 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -80,7 +80,8 @@ impl<'a> Lexer<'a> {
             Some((i, c)) => {
                 self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
-                if c == '\n' {
+                // Carriage return that is not a part of CRLF breaks the line as well
+                if c == '\n' || (c == '\r' && self.peek() != Some('\n')) {
                     self.current.line += 1;
                     self.current.col = 1
                 }
-- 
2.43.0


From 8455745d05965d5054ff1249e43a293b43a742cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 09/16] fix: report what cannot be read from a directory and
 process the rest

A directory that could not be listed ended the run with a panic before any
file was processed, and entries that could not be examined were skipped
silently.
---
 src/main.rs | 69 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e08f47..7192021 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,5 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
-use std::io::{stdout, Write};
+use std::io::{stdout, ErrorKind, Write};
 use std::path::{Path, PathBuf};
 use std::{env, fs};
 
@@ -48,16 +48,15 @@ fn format_files(args: &[String], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
     let mut lock = stdout().lock();
-    args.iter()
-        .map(PathBuf::from)
-        .map(|p| {
-            if p.is_dir() {
-                get_files_from_dir(p)
-            } else {
-                vec![p]
+    args.iter().map(PathBuf::from).for_each(|p| {
+        if p.is_dir() {
+            if !get_files_from_dir(p, &mut files) {
+                code = 1;
             }
-        })
-        .for_each(|mut v| files.append(&mut v));
+        } else {
+            files.push(p);
+        }
+    });
     files.iter().for_each(|p| {
         let contents = read_file(p);
         let name = p.display();
@@ -99,25 +98,39 @@ fn format_files(args: &[String], check: bool) {
     std::process::exit(code);
 }
 
-/// Return all Modelica files from the given directory
-fn get_files_from_dir(dir: PathBuf) -> Vec<PathBuf> {
-    let mut files = Vec::new();
-    let paths = fs::read_dir(&dir)
-        .unwrap_or_else(|_| panic!("{}: error reading from a directory", dir.display()));
-    paths
-        .map(|e| e.unwrap().path())
-        .map(|p| {
-            if p.is_dir() {
-                get_files_from_dir(p)
-            } else if is_modelica(p.as_path()) {
-                vec![p]
-            } else {
-                Vec::new()
+/// Collect all Modelica files from the given directory. Return `false` and
+/// report the reason if any part of the directory couldn't be read.
+fn get_files_from_dir(dir: PathBuf, files: &mut Vec<PathBuf>) -> bool {
+    let mut ok = true;
+    let paths = match fs::read_dir(&dir) {
+        Ok(paths) => paths,
+        Err(e) => {
+            eprintln!("{}: error: {}", dir.display(), e);
+            return false;
+        }
+    };
+    for entry in paths {
+        let p = match entry {
+            Ok(e) => e.path(),
+            Err(e) => {
+                eprintln!("{}: error: {}", dir.display(), e);
+                ok = false;
+                break;
             }
-        })
-        .for_each(|mut v| files.append(&mut v));
-
-    files
+        };
+        match fs::metadata(&p) {
+            Ok(m) if m.is_dir() => ok &= get_files_from_dir(p, files),
+            // In case of an error the file is going to be reported during reading
+            _ if is_modelica(p.as_path()) => files.push(p),
+            // Entry could have been deleted in the meantime
+            Err(e) if e.kind() != ErrorKind::NotFound => {
+                eprintln!("{}: error: {}", p.display(), e);
+                ok = false;
+            }
+            _ => (),
+        }
+    }
+    ok
 }
 
 /// Return `true` if the file is a Modelica file
-- 
2.43.0


From 9f269dc776dc17e78c38fe5bae6bf6ffcdf4460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 10/16] fix: do not follow a link to a directory that leads to
 it

Such a link made the walk go round until the system refused to resolve the
path, so every file below was processed many times.
---
 src/main.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7192021..05f261d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,7 @@ fn format_files(args: &[String], check: bool) {
     let mut lock = stdout().lock();
     args.iter().map(PathBuf::from).for_each(|p| {
         if p.is_dir() {
-            if !get_files_from_dir(p, &mut files) {
+            if !get_files_from_dir(p, &mut files, &mut Vec::new()) {
                 code = 1;
             }
         } else {
@@ -100,9 +100,17 @@ fn format_files(args: &[String], check: bool) {
 
 /// Collect all Modelica files from the given directory. Return `false` and
 /// report the reason if any part of the directory couldn't be read.
-fn get_files_from_dir(dir: PathBuf, files: &mut Vec<PathBuf>) -> bool {
+///
+/// Linked directory may be one of those that lead to it (`parents`). It is
+/// skipped then, as everything inside is already being collected.
+fn get_files_from_dir(dir: PathBuf, files: &mut Vec<PathBuf>, parents: &mut Vec<PathBuf>) -> bool {
     let mut ok = true;
-    let paths = match fs::read_dir(&dir) {
+    let paths = match fs::canonicalize(&dir) {
+        Ok(location) if parents.contains(&location) => return true,
+        Ok(location) => fs::read_dir(&dir).inspect(|_| parents.push(location)),
+        Err(e) => Err(e),
+    };
+    let paths = match paths {
         Ok(paths) => paths,
         Err(e) => {
             eprintln!("{}: error: {}", dir.display(), e);
@@ -119,7 +127,7 @@ fn get_files_from_dir(dir: PathBuf, files: &mut Vec<PathBuf>) -> bool {
             }
         };
         match fs::metadata(&p) {
-            Ok(m) if m.is_dir() => ok &= get_files_from_dir(p, files),
+            Ok(m) if m.is_dir() => ok &= get_files_from_dir(p, files, parents),
             // In case of an error the file is going to be reported during reading
             _ if is_modelica(p.as_path()) => files.push(p),
             // Entry could have been deleted in the meantime
@@ -130,6 +138,7 @@ fn get_files_from_dir(dir: PathBuf, files: &mut Vec<PathBuf>) -> bool {
             _ => (),
         }
     }
+    parents.pop();
     ok
 }
 
-- 
2.43.0


From 1c6dea67ceaff1aa2bbd6917dd56d5ade8541926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 11/16] fix: replace a formatted file atomically and report a
 failed write

The original was truncated first and written to afterwards, so an error,
a crash or a full disk left it empty or cut, other processes could read it in
that state, and the panic on failure stopped the processing of other files.
---
 src/main.rs | 54 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 05f261d..6a186a3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,10 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
+use std::fs::{File, Metadata, OpenOptions};
 use std::io::{stdout, ErrorKind, Write};
+#[cfg(unix)]
+use std::os::unix::fs::MetadataExt;
 use std::path::{Path, PathBuf};
-use std::{env, fs};
+use std::{env, fs, io};
 
 const VERSION: &str = "0.6.0";
 
@@ -84,8 +87,11 @@ fn format_files(args: &[String], check: bool) {
                         } else {
                             writeln!(lock, "{}: check passed", name).unwrap();
                         }
-                    } else {
-                        write_file(p, output);
+                    } else if output != source {
+                        if let Err(e) = write_file(p, output) {
+                            eprintln!("{}: error writing a file: {}", name, e);
+                            code = 1;
+                        }
                     }
                 }
             }
@@ -162,6 +168,44 @@ fn read_file(from: &Path) -> Result<String, String> {
 }
 
 /// Write formatted code to a file
-fn write_file(to: &Path, code: String) {
-    fs::write(to, code).unwrap_or_else(|_| panic!("{}: error writing a file", to.display()));
+///
+/// The code is stored in a temporary file that replaces the original one only
+/// once it is complete, so that neither a failure nor other processes can
+/// leave or see anything in between.
+fn write_file(to: &Path, code: String) -> io::Result<()> {
+    // Link has to be kept, the file it points to is replaced
+    let target = fs::canonicalize(to)?;
+    // File that can't be written to must not be replaced as well
+    let metadata = OpenOptions::new().write(true).open(&target)?.metadata()?;
+    let (temp, file) = create_temporary(&target)?;
+    let result = store_code(file, code, metadata).and_then(|_| fs::rename(&temp, &target));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp);
+    }
+    result
+}
+
+/// Create a temporary file in the same directory
+fn create_temporary(target: &Path) -> io::Result<(PathBuf, File)> {
+    let mut count = 0;
+    loop {
+        let temp = target.with_file_name(format!(".mofmt-{}-{}.tmp", std::process::id(), count));
+        match OpenOptions::new().write(true).create_new(true).open(&temp) {
+            Ok(file) => return Ok((temp, file)),
+            // Name used by another process, possibly in another container
+            Err(e) if e.kind() == ErrorKind::AlreadyExists => count += 1,
+            Err(e) => return Err(e),
+        }
+    }
+}
+
+/// Store the code in a file that has the same owner and permissions as the
+/// original one
+fn store_code(mut file: File, code: String, original: Metadata) -> io::Result<()> {
+    file.write_all(code.as_bytes())?;
+    // Only a privileged user may give the file away
+    #[cfg(unix)]
+    let _ = std::os::unix::fs::fchown(&file, Some(original.uid()), Some(original.gid()));
+    file.set_permissions(original.permissions())?;
+    file.sync_all()
 }
-- 
2.43.0


From e5a7b462397b5e7c5b90c614791a1a4f346d8580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 12/16] fix: accept paths that are not valid Unicode

Such an argument ended the run with a panic.
---
 src/main.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6a186a3..c6402b3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
+use std::ffi::OsString;
 use std::fs::{File, Metadata, OpenOptions};
 use std::io::{stdout, ErrorKind, Write};
 #[cfg(unix)]
@@ -22,24 +23,27 @@ Options:
 const EOL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
+    // Only a path may contain text that is not a valid Unicode
+    let option = args.get(1).map(|a| a.to_string_lossy());
+    let option = option.as_deref().unwrap_or_default();
     if args.len() < 2 {
         eprintln!("Missing PATHS arguments.\n{}", HELP);
         std::process::exit(1);
-    } else if ["-h", "--help"].contains(&args[1].as_str()) {
+    } else if ["-h", "--help"].contains(&option) {
         println!("{}", HELP);
         std::process::exit(0);
-    } else if ["-v", "--version"].contains(&args[1].as_str()) {
+    } else if ["-v", "--version"].contains(&option) {
         println!("mofmt, {}", VERSION);
         std::process::exit(0);
-    } else if args[1].as_str() == "--check" {
+    } else if option == "--check" {
         if args.len() < 3 {
             eprintln!("Missing PATHS arguments.\n{}", HELP);
             std::process::exit(1);
         }
         format_files(&args[2..], true);
-    } else if args[1].starts_with('-') {
-        eprintln!("Unrecognized option: '{}'.\n{}", args[1], HELP);
+    } else if option.starts_with('-') {
+        eprintln!("Unrecognized option: '{}'.\n{}", option, HELP);
         std::process::exit(1);
     } else {
         format_files(&args[1..], false);
@@ -47,7 +51,7 @@ fn main() {
 }
 
 /// Format files specified in the argument list
-fn format_files(args: &[String], check: bool) {
+fn format_files(args: &[OsString], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
     let mut lock = stdout().lock();
-- 
2.43.0


From c907088bd48cf6daf5209d8bb6b5b5915aaeca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 13/16] fix: process the remaining files when the output cannot
 be written

A closed standard output or standard error ended the run with a panic.
---
 src/main.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c6402b3..3ebc607 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,7 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
 use std::ffi::OsString;
 use std::fs::{File, Metadata, OpenOptions};
-use std::io::{stdout, ErrorKind, Write};
+use std::io::{stderr, stdout, ErrorKind, Write};
 #[cfg(unix)]
 use std::os::unix::fs::MetadataExt;
 use std::path::{Path, PathBuf};
@@ -50,6 +50,14 @@ fn main() {
     }
 }
 
+/// Print the message to the standard error. Unlike `eprintln` don't panic if it
+/// can't be written to, as there are still other files to process.
+macro_rules! report {
+    ($($arg:tt)*) => {
+        let _ = writeln!(stderr(), $($arg)*);
+    };
+}
+
 /// Format files specified in the argument list
 fn format_files(args: &[OsString], check: bool) {
     let mut code = 0;
@@ -75,32 +83,34 @@ fn format_files(args: &[OsString], check: bool) {
                     SyntaxKind::StoredDefinition,
                 );
                 if !parsed.errors.is_empty() {
-                    writeln!(
+                    let _ = writeln!(
                         lock,
                         "Syntax errors detected:\n{}",
                         parsed.errors.join("\n")
-                    )
-                    .unwrap();
+                    );
                     code = 1;
                 } else {
                     let output = pretty_print(parsed.tokens, parsed.comments, parsed.events) + EOL;
                     if check {
-                        if output != source {
+                        let verdict = if output != source {
                             code = 1;
-                            writeln!(lock, "{}: check failed", name).unwrap();
+                            "failed"
                         } else {
-                            writeln!(lock, "{}: check passed", name).unwrap();
+                            "passed"
+                        };
+                        if writeln!(lock, "{}: check {}", name, verdict).is_err() {
+                            code = 1;
                         }
                     } else if output != source {
                         if let Err(e) = write_file(p, output) {
-                            eprintln!("{}: error writing a file: {}", name, e);
+                            report!("{}: error writing a file: {}", name, e);
                             code = 1;
                         }
                     }
                 }
             }
             Err(e) => {
-                eprintln!("{}: error: {}", name, e);
+                report!("{}: error: {}", name, e);
                 code = 1;
             }
         }
@@ -123,7 +133,7 @@ fn get_files_from_dir(dir: PathBuf, files: &mut Vec<PathBuf>, parents: &mut Vec<
     let paths = match paths {
         Ok(paths) => paths,
         Err(e) => {
-            eprintln!("{}: error: {}", dir.display(), e);
+            report!("{}: error: {}", dir.display(), e);
             return false;
         }
     };
@@ -131,7 +141,7 @@ fn get_files_from_dir(dir: PathBuf, files: &mut Vec<PathBuf>, parents: &mut Vec<
         let p = match entry {
             Ok(e) => e.path(),
             Err(e) => {
-                eprintln!("{}: error: {}", dir.display(), e);
+                report!("{}: error: {}", dir.display(), e);
                 ok = false;
                 break;
             }
@@ -142,7 +152,7 @@ fn get_files_from_dir(dir: PathBuf, files: &mut Vec<PathBuf>, parents: &mut Vec<
             _ if is_modelica(p.as_path()) => files.push(p),
             // Entry could have been deleted in the meantime
             Err(e) if e.kind() != ErrorKind::NotFound => {
-                eprintln!("{}: error: {}", p.display(), e);
+                report!("{}: error: {}", p.display(), e);
                 ok = false;
             }
             _ => (),
-- 
2.43.0


From ab2ad19519f9aab696c0ccd673d5fb8b87176a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:39 +0000
Subject: [PATCH 14/16] fix: do not overflow the stack on long lists or deeply
 nested code

Elements of arrays and function calls are nested in each other by the grammar,
so a table with several thousands of elements aborted the run. Work in a
thread with a big stack and refuse the code that would not fit there.
---
 src/main.rs           | 36 +++++++++++++++++++++++++++---------
 src/parser/parsing.rs | 21 ++++++++++++++++++---
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3ebc607..28786f6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,7 +5,7 @@ use std::io::{stderr, stdout, ErrorKind, Write};
 #[cfg(unix)]
 use std::os::unix::fs::MetadataExt;
 use std::path::{Path, PathBuf};
-use std::{env, fs, io};
+use std::{env, fs, io, thread};
 
 const VERSION: &str = "0.6.0";
 
@@ -22,6 +22,14 @@ Options:
 
 const EOL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 
+/// Print the message to the standard error. Unlike `eprintln` don't panic if it
+/// can't be written to, as there are still other files to process.
+macro_rules! report {
+    ($($arg:tt)*) => {
+        let _ = writeln!(stderr(), $($arg)*);
+    };
+}
+
 fn main() {
     let args: Vec<OsString> = env::args_os().collect();
     // Only a path may contain text that is not a valid Unicode
@@ -41,21 +49,31 @@ fn main() {
             eprintln!("Missing PATHS arguments.\n{}", HELP);
             std::process::exit(1);
         }
-        format_files(&args[2..], true);
+        run(args[2..].to_vec(), true);
     } else if option.starts_with('-') {
         eprintln!("Unrecognized option: '{}'.\n{}", option, HELP);
         std::process::exit(1);
     } else {
-        format_files(&args[1..], false);
+        run(args[1..].to_vec(), false);
     }
 }
 
-/// Print the message to the standard error. Unlike `eprintln` don't panic if it
-/// can't be written to, as there are still other files to process.
-macro_rules! report {
-    ($($arg:tt)*) => {
-        let _ = writeln!(stderr(), $($arg)*);
-    };
+/// Format files in a thread with a stack that is sufficient for all the code
+/// accepted by the parser
+fn run(args: Vec<OsString>, check: bool) {
+    const STACK_SIZE: usize = 512 * 1024 * 1024;
+    let worker = thread::Builder::new()
+        .stack_size(STACK_SIZE)
+        .spawn(move || format_files(&args, check));
+    match worker {
+        // It exits from the process unless it panics
+        Ok(worker) => _ = worker.join(),
+        Err(e) => {
+            report!("mofmt: error: {}", e);
+            std::process::exit(1);
+        }
+    }
+    std::process::exit(101);
 }
 
 /// Format files specified in the argument list
diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 7c57c54..32ccebc 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -11,12 +11,16 @@ pub fn events(
 ) -> (Vec<SyntaxEvent>, Vec<String>) {
     let mut parser = Parser::new(name, tokens);
     parser.parse(start);
-    if parser.stuck.get() {
+    if parser.lifes.get() == 0 {
         parser.report(String::from("Parser stuck"));
     }
     (parser.events, parser.errors)
 }
 
+/// Number of grammar rules that may be nested in each other. Every rule takes
+/// up to 1 kB of the stack, here or when the code is formatted.
+const MAX_DEPTH: usize = 400_000;
+
 /// Represents a Modelica parser
 struct Parser<'a> {
     /// Source name
@@ -31,9 +35,11 @@ struct Parser<'a> {
     pos: usize,
     /// Parser lifes
     lifes: Cell<u32>,
-    /// `true` if parser ran out of lifes. From then on it behaves as if
-    /// it was at the end of file, so that every rule unwinds.
+    /// `true` if parser ran out of lifes or went too deep. From then on it
+    /// behaves as if it was at the end of file, so that every rule unwinds.
     stuck: Cell<bool>,
+    /// Number of rules being parsed
+    depth: usize,
 }
 
 impl<'a> Parser<'a> {
@@ -145,6 +151,7 @@ impl<'a> Parser<'a> {
             pos: 0,
             lifes: Cell::new(100),
             stuck: Cell::new(false),
+            depth: 0,
         }
     }
 
@@ -155,6 +162,11 @@ impl<'a> Parser<'a> {
     fn enter(&mut self) -> usize {
         let mark = self.events.len();
         self.events.push(SyntaxEvent::Enter(SyntaxKind::Error));
+        self.depth += 1;
+        if self.depth > MAX_DEPTH {
+            self.error(String::from("code is nested too deeply"));
+            self.stuck.set(true);
+        }
         mark
     }
 
@@ -165,6 +177,7 @@ impl<'a> Parser<'a> {
     fn exit(&mut self, m: usize, typ: SyntaxKind) {
         self.events[m] = SyntaxEvent::Enter(typ);
         self.events.push(SyntaxEvent::Exit);
+        self.depth -= 1;
     }
 
     /// Advance the parser, consume the token and push it into the events vector.
@@ -187,6 +200,8 @@ impl<'a> Parser<'a> {
     fn nth(&self, n: usize) -> ModelicaToken {
         if self.lifes.get() == 0 {
             self.stuck.set(true);
+        }
+        if self.stuck.get() {
             return ModelicaToken::EOF;
         }
         self.lifes.set(self.lifes.get() - 1);
-- 
2.43.0


From 1ba5774f79d0b0c55a115886d5e08b8baf777912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 15/16] fix: refuse a number whose exponent has no digits

---
 src/parser/lexing.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 2db28cd..6fbd571 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -335,18 +335,25 @@ impl<'a> Lexer<'a> {
             if !self.accept("eE") {
                 return self.generate_token(ModelicaToken::UInt);
             }
-            self.accept("+-");
-            self.accept_digits();
-            return self.generate_token(ModelicaToken::UReal);
+            return self.lex_exponent();
         }
         self.accept_digits();
         if self.accept("eE") {
-            self.accept("+-");
-            self.accept_digits();
+            return self.lex_exponent();
         }
         self.generate_token(ModelicaToken::UReal)
     }
 
+    /// Scan the rest of the numeral that follows `e`
+    fn lex_exponent(&mut self) {
+        self.accept("+-");
+        if !self.peek().is_some_and(|c| c.is_ascii_digit()) {
+            return self.generate_error(String::from("exponent without digits"));
+        }
+        self.accept_digits();
+        self.generate_token(ModelicaToken::UReal)
+    }
+
     /// Scan the slice that is supposed to be an indentifier or a keyword
     fn lex_nondigit(&mut self) {
         while let Some(c) = self.peek() {
-- 
2.43.0


From 7d598f28ec878f61459106c8e9a88639777ab9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 16/16] fix: refuse an empty quoted identifier

---
 src/parser/lexing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 6fbd571..73b30b8 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -258,6 +258,9 @@ impl<'a> Lexer<'a> {
         while let Some(c) = self.next() {
             match c {
                 '\\' => _ = self.next(),
+                '\'' if self.current.pos - self.start.pos == 2 => {
+                    return self.generate_error(String::from("empty Q-IDENT"))
+                }
                 '\'' => return self.generate_token(ModelicaToken::Identifier),
                 _ => {
                     if !(c.is_ascii_alphanumeric() || c == '_' || ALLOWED.contains(c)) {
-- 
2.43.0

