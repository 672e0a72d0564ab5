From 4cb1296d998a0353d031e085c1a1b1c9c8f65c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 01/40] fix: return an error from write_into() instead of
 panicking if rendering fails

io::Write::write_fmt() panics if a Display implementation returns an error
although the underlying writer did not fail, so any template that failed to
render (formatting error, '?' operator, ...) panicked in write_into() and
dyn_write_into().
---
 askama/src/lib.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/askama/src/lib.rs b/askama/src/lib.rs
index 6f1f6c6..c669eb9 100644
--- a/askama/src/lib.rs
+++ b/askama/src/lib.rs
@@ -93,7 +93,14 @@ pub trait Template: fmt::Display {
     /// Renders the template to the given `writer` io buffer
     #[inline]
     fn write_into(&self, writer: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        let mut writer = IoWriter {
+            inner: writer,
+            error: None,
+        };
+        self.render_into(&mut writer).map_err(|err| {
+            let io_error = writer.error.take();
+            io_error.unwrap_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, err))
+        })
     }
 
     /// The template's extension, if provided
@@ -171,7 +178,7 @@ impl<T: Template> DynTemplate for T {
 
     #[inline]
     fn dyn_write_into(&self, writer: &mut dyn std::io::Write) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        <Self as Template>::write_into(self, writer)
     }
 
     fn extension(&self) -> Option<&'static str> {
@@ -193,6 +200,24 @@ impl fmt::Display for dyn DynTemplate {
     }
 }
 
+/// Adapter to render into an [`std::io::Write`], which remembers the I/O error if one occurs
+///
+/// [`std::io::Write::write_fmt`] must not be used to that end, because it panics if the formatted
+/// value fails to render for any other reason.
+struct IoWriter<'a, W: ?Sized> {
+    inner: &'a mut W,
+    error: Option<std::io::Error>,
+}
+
+impl<W: std::io::Write + ?Sized> fmt::Write for IoWriter<'_, W> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        self.inner.write_all(s.as_bytes()).map_err(|err| {
+            self.error = Some(err);
+            fmt::Error
+        })
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::fmt;
-- 
2.43.0


From 496ffd024040e5058e1461178cda5ca55b87b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 02/40] fix: respond with status 500 in askama_axum if
 rendering fails

The error text was sent with status 200.
---
 askama_axum/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_axum/src/lib.rs b/askama_axum/src/lib.rs
index bbc47ab..e5c5b9f 100644
--- a/askama_axum/src/lib.rs
+++ b/askama_axum/src/lib.rs
@@ -11,7 +11,12 @@ use axum_core::response::{IntoResponse, Response};
 /// Render a [`Template`] into a [`Response`], or render an error page.
 pub fn into_response<T: ?Sized + askama::Template>(tmpl: &T) -> Response {
     try_into_response(tmpl)
-        .map_err(|err| axum_core::response::ErrorResponse::from(err.to_string()))
+        .map_err(|err| {
+            axum_core::response::ErrorResponse::from((
+                http::StatusCode::INTERNAL_SERVER_ERROR,
+                err.to_string(),
+            ))
+        })
         .into_response()
 }
 
-- 
2.43.0


From 7cbb46aac64a0548a7b0b5d3667327647401ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 03/40] fix: let the paragraphbreaks filter remove every empty
 paragraph

Empty paragraphs at the start or the end of the input were kept, and a literal
"<p></p>" in the input was dropped.
---
 askama/src/filters/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index e4871fa..8224135 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -244,8 +244,13 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 #[inline]
 pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
     fn paragraphbreaks(s: String) -> Result<String, Infallible> {
-        let linebroken = s.replace("\n\n", "</p><p>").replace("<p></p>", "");
-        Ok(format!("<p>{linebroken}</p>"))
+        let mut paragraphs = String::with_capacity(s.len());
+        for paragraph in s.split("\n\n").filter(|p| !p.is_empty()) {
+            paragraphs.push_str("<p>");
+            paragraphs.push_str(paragraph);
+            paragraphs.push_str("</p>");
+        }
+        Ok(paragraphs)
     }
     paragraphbreaks(s.to_string())
 }
-- 
2.43.0


From da65b7b5f3ca0f3391ea7e8eaf8c8d5ff2d7a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 04/40] fix: let the center filter center values that ignore
 width and alignment

The result of many built-in filters, and user types that write!() their output,
do not honor the width, so they were not centered at all.
---
 askama/src/filters/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 8224135..2e68afe 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -503,7 +503,10 @@ struct Center<T> {
 impl<T: fmt::Display> fmt::Display for Center<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.width < MAX_LEN {
-            write!(f, "{: ^1$}", self.src, self.width)
+            // The `Display` implementation of `src` might ignore width and alignment.
+            let mut src = String::new();
+            write!(src, "{}", self.src)?;
+            write!(f, "{src: ^0$}", self.width)
         } else {
             write!(f, "{}", self.src)
         }
-- 
2.43.0


From 2724e1fb6c2cff4eddf6ac9bfebfd1ecf36a770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 05/40] fix: do not leak nesting levels if parsing a target
 fails recoverably

Every trailing comma in a tuple target used up one nesting level for the rest
of the template, so templates with more than a hundred of them were rejected.
---
 askama_parser/src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 708d880..ceac4a8 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -175,9 +175,9 @@ impl<'a> Target<'a> {
         map(
             separated_list1(ws(tag("or")), |i| {
                 s.nest(i)?;
-                let ret = Self::parse_one(i, s)?;
+                let ret = Self::parse_one(i, s);
                 s.leave();
-                Ok(ret)
+                ret
             }),
             |mut opts| match opts.len() {
                 1 => opts.pop().unwrap(),
-- 
2.43.0


From 05cc370d48bd16cf7d514875b6dded4ae2475f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 06/40] fix: report the correct row for parse errors at the
 start of a line

str::lines() ignores an empty last line, so an error at the first character of
a line was reported at the end of the previous line.
---
 askama_parser/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index 09218aa..f4904b9 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -111,7 +111,12 @@ impl<'a> Ast<'a> {
             _ => format!("{source_after:?}"),
         };
 
-        let (row, last_line) = source_before.lines().enumerate().last().unwrap_or_default();
+        // `str::lines()` cannot be used here: it ignores an empty last line.
+        let (row, last_line) = source_before
+            .split('\n')
+            .enumerate()
+            .last()
+            .unwrap_or_default();
         let column = last_line.chars().count();
         Err(ParseError::Details {
             message,
-- 
2.43.0


From f0b764c3ae1a746fa96c2b06fef308977c034b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 07/40] fix: do not overflow the indentation counter for deeply
 nested templates

The proc macro panicked with an arithmetic overflow if the generated code was
indented by 64 or more levels.
---
 askama_derive/src/generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6d2283f..d6d461a 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1029,7 +1029,7 @@ impl<'a> Generator<'a> {
     /// This is the common code to generate an expression. It is used for filter blocks and for
     /// expressions more generally. It stores the size it represents and the buffers. Take a look
     /// at `WriteParts` for more details.
-    fn prepare_format(&mut self, indent: u8) -> Result<WriteParts, CompileError> {
+    fn prepare_format(&mut self, indent: usize) -> Result<WriteParts, CompileError> {
         if self.buf_writable.is_empty() {
             return Ok(WriteParts {
                 size_hint: 0,
@@ -1830,14 +1830,14 @@ struct Buffer {
     // The buffer to generate the code into
     buf: String,
     // The current level of indentation (in spaces)
-    indent: u8,
+    indent: usize,
     // Whether the output buffer is currently at the start of a line
     start: bool,
     discard: bool,
 }
 
 impl Buffer {
-    fn new(indent: u8) -> Self {
+    fn new(indent: usize) -> Self {
         Self {
             buf: String::new(),
             indent,
-- 
2.43.0


From 59cb627d62060f4871b176672df781191b241a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 08/40] fix: write preceding output before a {% let %} that
 shadows a field

The output before a {% let %} was only written first if the variable shadowed
another local variable. If it shadowed a field of the template, then the
preceding uses of the field were printed with the new value.
---
 askama_derive/src/generator.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d6d461a..2ac0586 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -265,7 +265,7 @@ impl<'a> Generator<'a> {
                     self.write_expr(ws, val);
                 }
                 Node::Let(ref l) => {
-                    self.write_let(buf, l)?;
+                    size_hint += self.write_let(buf, l)?;
                 }
                 Node::If(ref i) => {
                     size_hint += self.write_if(ctx, buf, i)?;
@@ -868,25 +868,24 @@ impl<'a> Generator<'a> {
         }
     }
 
-    fn write_let(&mut self, buf: &mut Buffer, l: &'a Let<'_>) -> Result<(), CompileError> {
+    fn write_let(&mut self, buf: &mut Buffer, l: &'a Let<'_>) -> Result<usize, CompileError> {
         self.handle_ws(l.ws);
 
         let Some(val) = &l.val else {
-            self.write_buf_writable(buf)?;
+            let size_hint = self.write_buf_writable(buf)?;
             buf.write("let ");
             self.visit_target(buf, false, true, &l.var);
-            return buf.writeln(";");
+            buf.writeln(";")?;
+            return Ok(size_hint);
         };
 
         let mut expr_buf = Buffer::new(0);
         self.visit_expr(&mut expr_buf, val)?;
 
         let shadowed = self.is_shadowing_variable(&l.var)?;
-        if shadowed {
-            // Need to flush the buffer if the variable is being shadowed,
-            // to ensure the old variable is used.
-            self.write_buf_writable(buf)?;
-        }
+        // Need to flush the buffer, because the variable might shadow another variable or a field
+        // of the template, to ensure the old variable is used.
+        let size_hint = self.write_buf_writable(buf)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
             || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
@@ -895,7 +894,8 @@ impl<'a> Generator<'a> {
         }
 
         self.visit_target(buf, true, true, &l.var);
-        buf.writeln(&format!(" = {};", &expr_buf.buf))
+        buf.writeln(&format!(" = {};", &expr_buf.buf))?;
+        Ok(size_hint)
     }
 
     // If `name` is `Some`, this is a call to a block definition, and we have to find
-- 
2.43.0


From 85ccea9120d946c4afe92f3f0c4758e3552addaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 09/40] fix: resolve nested includes relative to the including
 template

The path of an {% include %} was resolved relative to the including template to
find the used templates, but relative to the derived template to generate the
code. Hence the wrong file was included, or the proc macro panicked.
---
 askama_derive/src/generator.rs | 4 +++-
 askama_derive/src/heritage.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 2ac0586..1f97077 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -780,10 +780,12 @@ impl<'a> Generator<'a> {
     ) -> Result<usize, CompileError> {
         self.flush_ws(i.ws);
         self.write_buf_writable(buf)?;
+        // The path is relative to the template that contains the `include`, not to the one that is
+        // being derived.
         let path = self
             .input
             .config
-            .find_template(i.path, Some(&self.input.path))?;
+            .find_template(i.path, Some(ctx.path.unwrap_or(&self.input.path)))?;
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 76894cb..33abe8b 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -38,6 +38,7 @@ type BlockAncestry<'a> = HashMap<&'a str, Vec<(&'a Context<'a>, &'a BlockDef<'a>
 
 #[derive(Default, Clone)]
 pub(crate) struct Context<'a> {
+    pub(crate) path: Option<&'a Path>,
     pub(crate) nodes: &'a [Node<'a>],
     pub(crate) extends: Option<Rc<Path>>,
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
@@ -48,7 +49,7 @@ pub(crate) struct Context<'a> {
 impl Context<'_> {
     pub(crate) fn new<'n>(
         config: &Config<'_>,
-        path: &Path,
+        path: &'n Path,
         nodes: &'n [Node<'n>],
     ) -> Result<Context<'n>, CompileError> {
         let mut extends = None;
@@ -104,6 +105,7 @@ impl Context<'_> {
         }
 
         Ok(Context {
+            path: Some(path),
             nodes,
             extends,
             blocks,
-- 
2.43.0


From b1e20d237611f59a7c15919738b388bdd96eb123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 10/40] fix: detect cyclic {% extends %} that do not include
 the derived template

The proc macro never terminated if only ancestors of the derived template
extended each other in a cycle.
---
 askama_derive/src/input.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 10b9927..9b377ec 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -142,14 +142,12 @@ impl TemplateInput<'_> {
                         Node::Extends(extends) if top => {
                             let extends = self.config.find_template(extends.path, Some(&path))?;
                             let dependency_path = (path.clone(), extends.clone());
-                            if path == extends {
-                                // We add the path into the graph to have a better looking error.
+                            if !dependency_graph.contains(&dependency_path) {
                                 dependency_graph.push(dependency_path);
-                                return cyclic_graph_error(&dependency_graph);
-                            } else if dependency_graph.contains(&dependency_path) {
+                            }
+                            if extends_itself(&dependency_graph, &path) {
                                 return cyclic_graph_error(&dependency_graph);
                             }
-                            dependency_graph.push(dependency_path);
                             add_to_check(extends)?;
                         }
                         Node::Macro(m) if top => {
@@ -433,6 +431,20 @@ const TEXT_TYPES: [(Mime, Mime); 7] = [
     (mime::IMAGE_SVG, mime::IMAGE_SVG),
 ];
 
+/// Returns `true` if `path` is an ancestor of itself
+fn extends_itself(dependency_graph: &[(Rc<Path>, Rc<Path>)], path: &Rc<Path>) -> bool {
+    let mut current = path;
+    // There cannot be more ancestors than edges in the graph, unless the graph is cyclic.
+    for _ in dependency_graph {
+        match dependency_graph.iter().find(|edge| edge.0 == *current) {
+            Some((_, extends)) if extends == path => return true,
+            Some((_, extends)) => current = extends,
+            None => return false,
+        }
+    }
+    false
+}
+
 fn cyclic_graph_error(dependency_graph: &[(Rc<Path>, Rc<Path>)]) -> Result<(), CompileError> {
     Err(format!(
         "cyclic dependency in graph {:#?}",
-- 
2.43.0


From ccd38750c06d7836b5cf4cd26d3bd5dac36f0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 11/40] fix: do not leak variables of included templates

A {% let %} in an included template overwrote the variable with the same name
of the including template.
---
 askama_derive/src/generator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 1f97077..7f7adf9 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -828,8 +828,11 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        // Variables declared in the included template must not be visible in the including one.
+        buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.prepare_ws(i.ws);
 
         Ok(size_hint)
-- 
2.43.0


From 23801227cddd4685287c8e07ef199246dfa4864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 12/40] fix: do not leak variables of blocks

A {% let %} in a block overwrote the variable with the same name that was
declared before the block.
---
 askama_derive/src/generator.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 7f7adf9..cfe71c8 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -978,11 +978,20 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
-        let size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
+        let mut block_buf = Buffer::new(buf.indent);
+        block_buf.discard = buf.discard;
+        let mut size_hint =
+            child.handle(&child_ctx, &def.nodes, &mut block_buf, AstLevel::Block)?;
 
-        if !child.locals.is_current_empty() {
+        if child.locals.is_current_empty() {
+            buf.append(&block_buf);
+        } else {
             // Need to flush the buffer before popping the variable stack
-            child.write_buf_writable(buf)?;
+            size_hint += child.write_buf_writable(&mut block_buf)?;
+            // Variables declared in the block must not be visible after the block
+            buf.writeln("{")?;
+            buf.append(&block_buf);
+            buf.writeln("}")?;
         }
 
         child.flush_ws(def.ws2);
@@ -1883,6 +1892,12 @@ impl Buffer {
         self.buf.push_str(s);
     }
 
+    /// Append code that was generated in another buffer, even if this buffer discards its input.
+    fn append(&mut self, other: &Buffer) {
+        self.buf.push_str(&other.buf);
+        self.start = other.start;
+    }
+
     fn indent(&mut self) {
         self.indent += 1;
     }
-- 
2.43.0


From 000b0c6ea3a60140884ec1c4ecc6723c72fea34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 13/40] fix: evaluate the arguments of a macro call in the
 scope of the caller

Parameters were already in scope while the following arguments were evaluated,
so {% call m(b, a) %} of a macro m(a, b) passed the wrong values.
---
 askama_derive/src/generator.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index cfe71c8..b17fbea 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -633,6 +633,9 @@ impl<'a> Generator<'a> {
         // * If there isn't one, then we pick the next argument (we can do it without checking
         //   anything since named arguments are always last).
         let mut allow_positional = true;
+        // The arguments are evaluated in the scope of the caller, so the parameters must only be
+        // added to the scope once all of them were handled.
+        let mut params = Vec::with_capacity(def.args.len());
         for (index, arg) in def.args.iter().enumerate() {
             let expr = match named_arguments.get(&Cow::Borrowed(arg)) {
                 Some(expr) => {
@@ -657,16 +660,14 @@ impl<'a> Generator<'a> {
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    params.push((arg, Some(var)));
                 }
                 Expr::Attr(obj, attr) => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    params.push((arg, Some(var)));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
@@ -684,11 +685,20 @@ impl<'a> Generator<'a> {
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    self.locals.insert_with_default(Cow::Borrowed(arg));
+                    params.push((arg, None));
                 }
             }
         }
 
+        for (arg, var) in params {
+            match var {
+                Some(var) => self
+                    .locals
+                    .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var)),
+                None => self.locals.insert_with_default(Cow::Borrowed(arg)),
+            }
+        }
+
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
         if !names.buf.is_empty() {
             buf.writeln(&format!("let ({}) = ({});", names.buf, values.buf))?;
-- 
2.43.0


From 6960bf28e5b3197ba48caaa46c67d12e694717d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 14/40] fix: do not move non-Copy values that are passed as
 named macro arguments

Named arguments were always bound to a new variable, so naming an argument that
is a field failed to compile, although passing it by position worked.
---
 askama_derive/src/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index b17fbea..3720fc6 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -613,7 +613,7 @@ impl<'a> Generator<'a> {
         if let Some(Expr::NamedArgument(_, _)) = args.last() {
             // First we check that all named arguments actually exist in the called item.
             for arg in args.iter().rev() {
-                let Expr::NamedArgument(arg_name, _) = arg else {
+                let Expr::NamedArgument(arg_name, arg) = arg else {
                     break;
                 };
                 if !def.args.iter().any(|arg| arg == arg_name) {
@@ -640,7 +640,7 @@ impl<'a> Generator<'a> {
             let expr = match named_arguments.get(&Cow::Borrowed(arg)) {
                 Some(expr) => {
                     allow_positional = false;
-                    expr
+                    expr.as_ref()
                 }
                 None => {
                     if !allow_positional {
-- 
2.43.0


From 3e126750d70f0633c765033505bd0aded311a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 15/40] fix: allow keywords as macro parameters, and shadowing
 of macro parameters

Parameters named like a Rust keyword were looked up as fields of the template.
A {% let %} with the name of a parameter assigned to an immutable variable.
---
 askama_derive/src/generator.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 3720fc6..fd7db94 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -680,7 +680,7 @@ impl<'a> Generator<'a> {
                         names.write(", ");
                         values.write(", ");
                     }
-                    names.write(arg);
+                    names.write(normalize_identifier(arg));
 
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
@@ -691,12 +691,12 @@ impl<'a> Generator<'a> {
         }
 
         for (arg, var) in params {
-            match var {
-                Some(var) => self
-                    .locals
-                    .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var)),
-                None => self.locals.insert_with_default(Cow::Borrowed(arg)),
-            }
+            let meta = match var {
+                Some(var) => LocalMeta::with_ref(var),
+                None => LocalMeta::initialized(),
+            };
+            self.locals
+                .insert(Cow::Borrowed(normalize_identifier(arg)), meta);
         }
 
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
@@ -903,7 +903,7 @@ impl<'a> Generator<'a> {
         let size_hint = self.write_buf_writable(buf)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
-            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
+            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(normalize_identifier(name))).is_none())
         {
             buf.write("let ");
         }
-- 
2.43.0


From fe6f48d972a1f08e3831ef729059eac979f79fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 16/40] fix: do not let variables in macros capture macro
 arguments

Macro arguments that are variables are aliases for the variable of the caller,
so any variable of the same name that was declared in the macro (or another
parameter, or the loop variables for `loop.index`) was printed instead.
---
 askama_derive/src/generator.rs | 94 +++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 31 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index fd7db94..7c0a755 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -598,7 +598,6 @@ impl<'a> Generator<'a> {
 
         let mut names = Buffer::new(0);
         let mut values = Buffer::new(0);
-        let mut is_first_variable = true;
         if args.len() != def.args.len() {
             return Err(CompileError::from(format!(
                 "macro {name:?} expected {} argument{}, found {}",
@@ -662,7 +661,7 @@ impl<'a> Generator<'a> {
                     let var = self.locals.resolve_or_self(name);
                     params.push((arg, Some(var)));
                 }
-                Expr::Attr(obj, attr) => {
+                Expr::Attr(obj, attr) if **obj != Expr::Var("loop") => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
@@ -674,14 +673,9 @@ impl<'a> Generator<'a> {
                 // multiple times, e.g. in the case of macro
                 // parameters being used multiple times.
                 _ => {
-                    if is_first_variable {
-                        is_first_variable = false
-                    } else {
-                        names.write(", ");
+                    if !values.buf.is_empty() {
                         values.write(", ");
                     }
-                    names.write(normalize_identifier(arg));
-
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
@@ -690,13 +684,24 @@ impl<'a> Generator<'a> {
             }
         }
 
-        for (arg, var) in params {
-            let meta = match var {
-                Some(var) => LocalMeta::with_ref(var),
-                None => LocalMeta::initialized(),
-            };
-            self.locals
-                .insert(Cow::Borrowed(normalize_identifier(arg)), meta);
+        // Parameters that are aliases of other expressions must be inserted first, because the
+        // names of the variables must not collide with the variables used in the aliases.
+        for (arg, alias) in &params {
+            if let Some(alias) = alias {
+                self.locals.insert(
+                    Cow::Borrowed(normalize_identifier(arg)),
+                    LocalMeta::with_ref(alias.clone()),
+                );
+            }
+        }
+        for (arg, alias) in &params {
+            if alias.is_none() {
+                if !names.buf.is_empty() {
+                    names.write(", ");
+                }
+                let var = self.locals.declare(normalize_identifier(arg), true);
+                names.write(&var);
+            }
         }
 
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
@@ -1723,14 +1728,8 @@ impl<'a> Generator<'a> {
                 buf.write("_");
             }
             Target::Name(name) => {
-                let name = normalize_identifier(name);
-                match initialized {
-                    true => self
-                        .locals
-                        .insert(Cow::Borrowed(name), LocalMeta::initialized()),
-                    false => self.locals.insert_with_default(Cow::Borrowed(name)),
-                }
-                buf.write(name);
+                let var = self.locals.declare(normalize_identifier(name), initialized);
+                buf.write(&var);
             }
             Target::OrChain(targets) => match targets.first() {
                 None => buf.write("_"),
@@ -1988,13 +1987,6 @@ where
         // compile error "identifier `a` used more than once".
     }
 
-    fn insert_with_default(&mut self, key: K)
-    where
-        V: Default,
-    {
-        self.insert(key, V::default());
-    }
-
     fn push(&mut self) {
         self.scopes.push(HashMap::new());
     }
@@ -2005,7 +1997,47 @@ where
     }
 }
 
-impl MapChain<'_, Cow<'_, str>, LocalMeta> {
+impl<'a> MapChain<'_, Cow<'a, str>, LocalMeta> {
+    /// Add a variable to the current scope. Returns the name of the variable in the generated code.
+    fn declare(&mut self, name: &'a str, initialized: bool) -> String {
+        let refs = match self.get(&Cow::Borrowed(name)) {
+            // This initializes a variable that was declared before.
+            Some(meta) if !meta.initialized => meta.refs.clone(),
+            // Macro parameters can be aliases for variables of the caller. A variable of the same
+            // name must not be captured by the alias, so it needs a different name.
+            _ if self.is_aliased(name) => Some(format!(
+                "__{}_{}",
+                name.trim_start_matches("r#"),
+                self.depth(),
+            )),
+            _ => None,
+        };
+        let var = refs.clone().unwrap_or_else(|| name.to_owned());
+        self.insert(Cow::Borrowed(name), LocalMeta { refs, initialized });
+        var
+    }
+
+    /// Returns `true` if any name in scope is an alias for an expression that uses `name`.
+    fn is_aliased(&self, name: &str) -> bool {
+        let name = name.trim_start_matches("r#");
+        let uses_name = |expr: &String| {
+            expr.match_indices(name).any(|(start, _)| {
+                let is_ident = |c: char| c.is_alphanumeric() || c == '_' || c >= '\u{0080}';
+                // `.name` is not the variable, but a field or method
+                !expr[..start].ends_with(|c| is_ident(c) || c == '.')
+                    && !expr[start + name.len()..].starts_with(is_ident)
+            })
+        };
+        let mut metas = self.scopes.iter().flat_map(HashMap::values);
+        metas.any(|meta| meta.refs.as_ref().map_or(false, uses_name))
+            || self.parent.map_or(false, |parent| parent.is_aliased(name))
+    }
+
+    /// The number of nested scopes.
+    fn depth(&self) -> usize {
+        self.scopes.len() + self.parent.map_or(0, |parent| parent.depth())
+    }
+
     fn resolve(&self, name: &str) -> Option<String> {
         let name = normalize_identifier(name);
         self.get(&Cow::Borrowed(name)).map(|meta| match &meta.refs {
-- 
2.43.0


From 76c0f3242f13a7b4dac1bb3667185996ea136417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 17/40] fix: apply filter blocks to their whole content

Control structures in a filter block were written in front of the block without
being filtered, and an empty filter block dropped the output preceding it.
---
 askama_derive/src/generator.rs | 43 ++++++++++++----------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 7c0a755..cf1e6a4 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -734,36 +734,23 @@ impl<'a> Generator<'a> {
                 break;
             }
         }
-        let current_buf = mem::take(&mut self.buf_writable.buf);
-
+        // The content of the block is rendered into its own buffer.
+        let mut size_hint = self.write_buf_writable(buf)?;
+        buf.writeln(&format!(
+            "let mut {var_name} = ::std::string::String::new();"
+        ))?;
+        buf.writeln("{")?;
+        buf.writeln("#[allow(unused_variables)]")?;
+        buf.writeln(&format!(
+            "let writer: &mut dyn ::std::fmt::Write = &mut {var_name};"
+        ))?;
+        self.locals.push();
         self.prepare_ws(filter.ws1);
-        let mut size_hint = self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
+        size_hint += self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
         self.flush_ws(filter.ws2);
-
-        let WriteParts {
-            size_hint: write_size_hint,
-            buffers,
-        } = self.prepare_format(buf.indent + 1)?;
-        size_hint += match buffers {
-            None => return Ok(0),
-            Some(WritePartsBuffers { format, expr: None }) => {
-                buf.writeln(&format!("let {var_name} = {:#?};", &format.buf))?;
-                write_size_hint
-            }
-            Some(WritePartsBuffers {
-                format,
-                expr: Some(expr),
-            }) => {
-                buf.writeln(&format!(
-                    "let {var_name} = format!({:#?}, {});",
-                    &format.buf,
-                    expr.buf.trim(),
-                ))?;
-                write_size_hint
-            }
-        };
-
-        self.buf_writable.buf = current_buf;
+        size_hint += self.write_buf_writable(buf)?;
+        self.locals.pop();
+        buf.writeln("}")?;
 
         let mut filter_buf = Buffer::new(buf.indent);
         let Filter {
-- 
2.43.0


From c68c73685779a53c59c134b742e939f2ac2e1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 18/40] fix: report an error for blocks in filter blocks
 instead of panicking

---
 askama_derive/src/generator.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index cf1e6a4..3d8a5af 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -946,12 +946,16 @@ impl<'a> Generator<'a> {
         let heritage = self
             .heritage
             .ok_or_else(|| CompileError::from("no block ancestors available"))?;
-        let (child_ctx, def) = *heritage.blocks[cur.0].get(cur.1).ok_or_else(|| {
-            CompileError::from(match name {
-                None => format!("no super() block found for block '{}'", cur.0),
-                Some(name) => format!("no block found for name '{name}'"),
-            })
-        })?;
+        let (child_ctx, def) = *heritage
+            .blocks
+            .get(cur.0)
+            .and_then(|defs| defs.get(cur.1))
+            .ok_or_else(|| {
+                CompileError::from(match name {
+                    None => format!("no super() block found for block '{}'", cur.0),
+                    Some(name) => format!("no block found for name '{name}'"),
+                })
+            })?;
 
         // We clone the context of the child in order to preserve their macros and imports.
         // But also add all the imports and macros from this template that don't override the
-- 
2.43.0


From b4c7dcf6f10fcfffbf32b5e4a4006c9b6f075928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 19/40] fix: let minimizing take precedence over preserving
 whitespace between two tags

---
 askama_derive/src/generator.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 3d8a5af..55bc9c0 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1170,15 +1170,16 @@ impl<'a> Generator<'a> {
                 WhitespaceHandling::Suppress => {}
                 _ if val.is_empty() => {
                     assert!(rws.is_empty());
-                    self.next_ws = Some(lws);
+                    // The whitespace control of the next tag applies, too. `Minimize` takes
+                    // precedence over `Preserve`.
+                    self.next_ws = Some(match self.skip_ws {
+                        WhitespaceHandling::Minimize => minimize_ws(lws),
+                        _ => lws,
+                    });
                 }
                 WhitespaceHandling::Preserve => self.buf_writable.push(Writable::Lit(lws)),
                 WhitespaceHandling::Minimize => {
-                    self.buf_writable
-                        .push(Writable::Lit(match lws.contains('\n') {
-                            true => "\n",
-                            false => " ",
-                        }));
+                    self.buf_writable.push(Writable::Lit(minimize_ws(lws)));
                 }
             }
         }
@@ -1820,11 +1821,7 @@ impl<'a> Generator<'a> {
             WhitespaceHandling::Minimize => {
                 let val = self.next_ws.unwrap();
                 if !val.is_empty() {
-                    self.buf_writable
-                        .push(Writable::Lit(match val.contains('\n') {
-                            true => "\n",
-                            false => " ",
-                        }));
+                    self.buf_writable.push(Writable::Lit(minimize_ws(val)));
                 }
             }
             WhitespaceHandling::Suppress => {}
@@ -1840,6 +1837,14 @@ impl<'a> Generator<'a> {
     }
 }
 
+// Reduces a non-empty sequence of whitespace to a single newline or space.
+fn minimize_ws(ws: &str) -> &'static str {
+    match ws.contains('\n') {
+        true => "\n",
+        false => " ",
+    }
+}
+
 struct Buffer {
     // The buffer to generate the code into
     buf: String,
-- 
2.43.0


From 81b17e917107c7b3eb62c1ca8d7f0168a0291824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 20/40] fix: treat identifiers that start with an underscore or
 an uncased letter as variables
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only names that start with an uppercase letter are paths. Fields and
variables like `_x` could not be used, and `_` was rejected in
`{% let (a, _) = … %}`.
---
 askama_parser/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index f4904b9..89846ae 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -521,7 +521,7 @@ fn path_or_identifier(i: &str) -> ParseResult<'_, PathOrIdentifier<'_>> {
             path.extend(rest);
             Ok((i, PathOrIdentifier::Path(path)))
         }
-        (None, name, []) if name.chars().next().map_or(true, |c| c.is_lowercase()) => {
+        (None, name, []) if !name.starts_with(char::is_uppercase) => {
             Ok((i, PathOrIdentifier::Identifier(name)))
         }
         (None, start, tail) => {
-- 
2.43.0


From 039d1fed6ce67dc6546bc4a2027c9b78971b8fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 21/40] fix: loops over array literals with non-constant
 elements

---
 askama_derive/src/generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 55bc9c0..7c5c151 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -487,7 +487,11 @@ impl<'a> Generator<'a> {
         }
         match loop_block.iter {
             Expr::Range(_, _, _) => buf.writeln(&format!("let _iter = {expr_code};")),
-            Expr::Array(..) => buf.writeln(&format!("let _iter = {expr_code}.iter();")),
+            // The array needs a name in order to live as long as its iterator.
+            Expr::Array(..) => {
+                buf.writeln(&format!("let _iter = {expr_code};"))?;
+                buf.writeln("let _iter = _iter.iter();")
+            }
             // If `iter` is a call then we assume it's something that returns
             // an iterator. If not then the user can explicitly add the needed
             // call without issues.
-- 
2.43.0


From f5fa31d30e89dc3fd1d25aca9bdec328214a78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 22/40] fix: filters as first argument of the first filter of a
 filter block

---
 askama_derive/src/generator.rs | 20 +++++++++++---------
 askama_parser/src/node.rs      |  6 +++++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 7c5c151..540b488 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -763,7 +763,7 @@ impl<'a> Generator<'a> {
         } = &filter.filters;
         let mut arguments = arguments.clone();
 
-        insert_first_filter_argument(&mut arguments, var_name.clone());
+        set_first_filter_argument(&mut arguments, var_name.clone());
 
         let wrap = self.visit_filter(&mut filter_buf, filter_name, &arguments)?;
 
@@ -2161,7 +2161,7 @@ fn median(sizes: &mut [usize]) -> usize {
 ///                arguments: vec![
 ///                    Filter {
 ///                        name: "a",
-///                        arguments: vec![],
+///                        arguments: vec![Generated("")],
 ///                    }.
 ///                ],
 ///            }
@@ -2172,13 +2172,15 @@ fn median(sizes: &mut [usize]) -> usize {
 /// ```
 ///
 /// So in here, we want to insert the variable containing the content of the filter block inside
-/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally insert our
-/// variable as the first argument to the `"a"` call.
-fn insert_first_filter_argument(args: &mut Vec<Expr<'_>>, var_name: String) {
-    if let Some(Expr::Filter(Filter { arguments, .. })) = args.first_mut() {
-        insert_first_filter_argument(arguments, var_name);
-    } else {
-        args.insert(0, Expr::Generated(var_name));
+/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally replace the
+/// placeholder which is the first argument of the `"a"` call with our variable.
+fn set_first_filter_argument(args: &mut [Expr<'_>], var_name: String) {
+    match args.first_mut() {
+        Some(Expr::Filter(Filter { arguments, .. })) => {
+            set_first_filter_argument(arguments, var_name)
+        }
+        Some(placeholder) => *placeholder = Expr::Generated(var_name),
+        None => {}
     }
 }
 
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index ceac4a8..29b7b67 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -612,9 +612,13 @@ impl<'a> FilterBlock<'a> {
         ));
         let (i, (pws1, _, (filter_name, params, extra_filters, _, nws1, _))) = start(i)?;
 
+        // The first argument of the first filter is the content of the block. The code generator
+        // fills it in; without it, the first filter could not be told from its own arguments.
+        let mut arguments = params.unwrap_or_default();
+        arguments.insert(0, Expr::Generated(String::new()));
         let mut filters = Filter {
             name: filter_name,
-            arguments: params.unwrap_or_default(),
+            arguments,
         };
         for (filter_name, args) in extra_filters {
             filters = Filter {
-- 
2.43.0


From 6b048635f3114d6ca62c1775a282ca02e174fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 23/40] fix: do not share the result of the join filter between
 expressions

---
 askama_derive/src/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 540b488..d14d109 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2115,6 +2115,8 @@ pub(crate) fn is_cacheable(expr: &Expr<'_>) -> bool {
         Expr::Array(args) => args.iter().all(is_cacheable),
         Expr::Attr(lhs, _) => is_cacheable(lhs),
         Expr::Index(lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
+        // The result of `join` consumes its input when it gets displayed:
+        Expr::Filter(Filter { name: "join", .. }) => false,
         Expr::Filter(Filter { arguments, .. }) => arguments.iter().all(is_cacheable),
         Expr::Unary(_, arg) => is_cacheable(arg),
         Expr::BinOp(_, lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
-- 
2.43.0


From 7fab3757d488597e3a19191c5fb00befa204f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:16 +0000
Subject: [PATCH 24/40] fix: write the pending expressions of a block with the
 variables of the block

---
 askama_derive/src/generator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d14d109..5bef906 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -993,7 +993,9 @@ impl<'a> Generator<'a> {
         let mut size_hint =
             child.handle(&child_ctx, &def.nodes, &mut block_buf, AstLevel::Block)?;
 
-        if child.locals.is_current_empty() {
+        // Expressions have to be written with the variables of the block, not of its parent
+        let only_literals = (child.buf_writable.iter()).all(|w| matches!(w, Writable::Lit(_)));
+        if child.locals.is_current_empty() && only_literals {
             buf.append(&block_buf);
         } else {
             // Need to flush the buffer before popping the variable stack
-- 
2.43.0


From 9927baa7d75882075b6a1ded039180d3acbe0ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 25/40] fix: render a block fragment by itself

A block that is only defined in a child template was rendered as nothing, a
condition or a loop around the block could suppress or repeat it, and selecting
a block in a template without any blocks was not reported.
---
 askama_derive/src/generator.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 5bef906..9887f25 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -37,6 +37,8 @@ pub(crate) struct Generator<'a> {
     super_block: Option<(&'a str, usize)>,
     // Buffer for writable
     buf_writable: WritableBuffer<'a>,
+    // Whether the block selected by the `block` argument was encountered
+    fragment_found: bool,
     // Counter for write! hash named arguments
     named: usize,
 }
@@ -60,6 +62,7 @@ impl<'a> Generator<'a> {
                 discard: input.block.is_some(),
                 ..Default::default()
             },
+            fragment_found: false,
             named: 0,
         }
     }
@@ -109,11 +112,19 @@ impl<'a> Generator<'a> {
             }
         }
 
-        let size_hint = if let Some(heritage) = self.heritage {
-            self.handle(heritage.root, heritage.root.nodes, buf, AstLevel::Top)
-        } else {
-            self.handle(ctx, ctx.nodes, buf, AstLevel::Top)
+        let size_hint = match (self.heritage, self.input.block) {
+            // The code around a block fragment is not part of the fragment
+            (Some(heritage), block @ Some(_)) => {
+                self.write_block(heritage.root, buf, block, Ws(None, None))
+            }
+            (Some(heritage), None) => {
+                self.handle(heritage.root, heritage.root.nodes, buf, AstLevel::Top)
+            }
+            (None, _) => self.handle(ctx, ctx.nodes, buf, AstLevel::Top),
         }?;
+        if let (Some(block), false) = (self.input.block, self.fragment_found) {
+            return Err(format!("cannot find block {block}").into());
+        }
 
         self.flush_ws(Ws(None, None));
         buf.write(CRATE);
@@ -838,6 +849,7 @@ impl<'a> Generator<'a> {
         buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
+        self.fragment_found |= child.fragment_found;
         buf.writeln("}")?;
         self.prepare_ws(i.ws);
 
@@ -943,6 +955,7 @@ impl<'a> Generator<'a> {
         // Allow writing to the buffer if we're in the block fragment
         if block_fragment_write {
             self.buf_writable.discard = false;
+            self.fragment_found = true;
         }
         let prev_buf_discard = mem::replace(&mut buf.discard, self.buf_writable.discard);
 
@@ -1008,6 +1021,7 @@ impl<'a> Generator<'a> {
 
         child.flush_ws(def.ws2);
         self.buf_writable = child.buf_writable;
+        self.fragment_found |= child.fragment_found;
 
         // Restore original block context and set whitespace suppression for
         // succeeding whitespace according to the outer WS spec
@@ -1015,6 +1029,8 @@ impl<'a> Generator<'a> {
 
         // Restore the original buffer discarding state
         if block_fragment_write {
+            // Nothing that was not written yet must be discarded
+            size_hint += self.write_buf_writable(buf)?;
             self.buf_writable.discard = true;
         }
         buf.discard = prev_buf_discard;
@@ -1910,10 +1926,16 @@ impl Buffer {
     }
 
     fn indent(&mut self) {
+        if self.discard {
+            return;
+        }
         self.indent += 1;
     }
 
     fn dedent(&mut self) -> Result<(), CompileError> {
+        if self.discard {
+            return Ok(());
+        }
         if self.indent == 0 {
             return Err("dedent() called while indentation == 0".into());
         }
-- 
2.43.0


From e5635ce268437d457a64bf4b4bd30e3181b867f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 26/40] fix: report invalid template attributes instead of
 panicking

---
 askama_derive/src/input.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 9b377ec..44e9186 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -48,7 +48,7 @@ impl TemplateInput<'_> {
         // of `ext` is merged into a synthetic `path` value here.
         let source = source
             .as_ref()
-            .expect("template path or source not found in attributes");
+            .ok_or("template path or source not found in attributes")?;
         let path = match (&source, &ext) {
             (Source::Path(path), _) => config.find_template(path, None)?,
             (&Source::Source(_), Some(ext)) => {
@@ -257,7 +257,13 @@ impl TemplateArgs {
 
             let ident = match pair.path.get_ident() {
                 Some(ident) => ident,
-                None => unreachable!("not possible in syn::Meta::NameValue(…)"),
+                None => {
+                    return Err(format!(
+                        "unsupported attribute key {:?} found",
+                        pair.path.to_token_stream().to_string()
+                    )
+                    .into())
+                }
             };
 
             let value = match pair.value {
-- 
2.43.0


From f229161b1185ad94356e2f735ca0c0d062d8a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 27/40] fix: report recursive macros, includes and blocks
 instead of overflowing the stack

---
 askama_derive/src/generator.rs | 48 +++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 9887f25..7334117 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1,9 +1,9 @@
 use std::borrow::Cow;
 use std::collections::hash_map::{Entry, HashMap};
 use std::ops::Deref;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use std::rc::Rc;
-use std::{cmp, hash, mem, str};
+use std::{cmp, hash, mem, ptr, str};
 
 use crate::config::WhitespaceHandling;
 use crate::heritage::{Context, Heritage};
@@ -11,8 +11,8 @@ use crate::input::{Source, TemplateInput};
 use crate::{CompileError, CRATE};
 
 use parser::node::{
-    Call, Comment, CondTest, FilterBlock, If, Include, Let, Lit, Loop, Match, Target, Whitespace,
-    Ws,
+    Call, Comment, CondTest, FilterBlock, If, Include, Let, Lit, Loop, Macro, Match, Target,
+    Whitespace, Ws,
 };
 use parser::{Expr, Filter, Node};
 use quote::quote;
@@ -41,6 +41,10 @@ pub(crate) struct Generator<'a> {
     fragment_found: bool,
     // Counter for write! hash named arguments
     named: usize,
+    // The macros, included templates and blocks that are currently expanded
+    macro_stack: Vec<&'a Macro<'a>>,
+    include_stack: Vec<PathBuf>,
+    block_stack: Vec<(&'a str, usize)>,
 }
 
 impl<'a> Generator<'a> {
@@ -64,6 +68,9 @@ impl<'a> Generator<'a> {
             },
             fragment_found: false,
             named: 0,
+            macro_stack: Vec::new(),
+            include_stack: Vec::new(),
+            block_stack: Vec::new(),
         }
     }
 
@@ -605,6 +612,10 @@ impl<'a> Generator<'a> {
             }
         };
 
+        if self.macro_stack.iter().any(|m| ptr::eq(*m, *def)) {
+            return Err(format!("macro {name:?} must not call itself").into());
+        }
+
         self.flush_ws(ws); // Cannot handle_ws() here: whitespace from macro definition comes first
         self.locals.push();
         self.write_buf_writable(buf)?;
@@ -724,7 +735,9 @@ impl<'a> Generator<'a> {
             buf.writeln(&format!("let ({}) = ({});", names.buf, values.buf))?;
         }
 
+        self.macro_stack.push(*def);
         let mut size_hint = self.handle(own_ctx, &def.nodes, buf, AstLevel::Nested)?;
+        self.macro_stack.pop();
 
         self.flush_ws(def.ws2);
         size_hint += self.write_buf_writable(buf)?;
@@ -803,10 +816,13 @@ impl<'a> Generator<'a> {
             .input
             .config
             .find_template(i.path, Some(ctx.path.unwrap_or(&self.input.path)))?;
+        let canonical_path = path.canonicalize().unwrap();
+        if self.include_stack.contains(&canonical_path) {
+            return Err(format!("template {:?} must not include itself", i.path).into());
+        }
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
-            let canonical_path = path.canonicalize().unwrap();
             let include_path = canonical_path.to_str().unwrap();
             buf.writeln(
                 &quote! {
@@ -845,6 +861,9 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        child.macro_stack.clone_from(&self.macro_stack);
+        child.include_stack.clone_from(&self.include_stack);
+        child.include_stack.push(canonical_path);
         // Variables declared in the included template must not be visible in the including one.
         buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
@@ -935,20 +954,19 @@ impl<'a> Generator<'a> {
         self.flush_ws(outer);
 
         let cur = match (name, self.super_block) {
-            // The top-level context contains a block definition
-            (Some(cur_name), None) => (cur_name, 0),
-            // A block definition contains a block definition of the same name
-            (Some(cur_name), Some((prev_name, _))) if cur_name == prev_name => {
-                return Err(format!("cannot define recursive blocks ({cur_name})").into());
-            }
-            // A block definition contains a definition of another block
-            (Some(cur_name), Some((_, _))) => (cur_name, 0),
+            // The top-level context or a block definition contains a block definition
+            (Some(cur_name), _) => (cur_name, 0),
             // `super()` was called inside a block
             (None, Some((prev_name, gen))) => (prev_name, gen + 1),
             // `super()` is called from outside a block
             (None, None) => return Err("cannot call 'super()' outside block".into()),
         };
 
+        // The definition of the block contains the block itself
+        if self.block_stack.contains(&cur) {
+            return Err(format!("cannot define recursive blocks ({})", cur.0).into());
+        }
+
         self.write_buf_writable(buf)?;
 
         let block_fragment_write = self.input.block == name && self.buf_writable.discard;
@@ -996,6 +1014,10 @@ impl<'a> Generator<'a> {
             MapChain::default(),
         );
         child.buf_writable = mem::take(&mut self.buf_writable);
+        child.macro_stack.clone_from(&self.macro_stack);
+        child.include_stack.clone_from(&self.include_stack);
+        child.block_stack.clone_from(&self.block_stack);
+        child.block_stack.push(cur);
 
         // Handle inner whitespace suppression spec and process block nodes
         child.prepare_ws(def.ws1);
-- 
2.43.0


From 96269b1124b8edf83284aaeb89206bd5a3d52883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 28/40] fix: reject templates that define a block twice instead
 of dropping one of the definitions

---
 askama_derive/src/heritage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 33abe8b..d0d4584 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -81,7 +81,9 @@ impl Context<'_> {
                         );
                     }
                     Node::BlockDef(b) => {
-                        blocks.insert(b.name, b);
+                        if blocks.insert(b.name, b).is_some() {
+                            return Err(format!("block {:?} is defined twice", b.name).into());
+                        }
                         nested.push(&b.nodes);
                     }
                     Node::If(i) => {
-- 
2.43.0


From ea6dcc9bb4e07bc7301c9da9386d8087cc5b1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 29/40] fix: report an else that is not the last branch of an
 if instead of generating invalid code

---
 askama_parser/src/node.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 29b7b67..ef29edc 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -963,7 +963,7 @@ impl<'a> If<'a> {
                 |i| s.tag_block_end(i),
                 cut(tuple((
                     |i| Node::many(i, s),
-                    many0(|i| Cond::parse(i, s)),
+                    many0(|i| Cond::parse(i, s).map(|(j, cond)| (j, (i, cond)))),
                     cut(tuple((
                         |i| s.tag_block_start(i),
                         opt(Whitespace::parse),
@@ -980,7 +980,15 @@ impl<'a> If<'a> {
             cond: Some(cond),
             nodes,
         }];
-        branches.extend(elifs);
+        for (start, elif) in elifs {
+            if matches!(branches.last(), Some(Cond { cond: None, .. })) {
+                return Err(nom::Err::Failure(ErrorContext::new(
+                    "`else` must be the last branch of an `if` block",
+                    start,
+                )));
+            }
+            branches.push(elif);
+        }
 
         Ok((
             i,
-- 
2.43.0


From fd2434f468d7e3b0e4459d7605047832db20a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 30/40] fix: register the configuration file as a dependency of
 the compiled templates

---
 askama_derive/src/config.rs    | 11 +++++++----
 askama_derive/src/generator.rs | 13 +++++++++----
 askama_derive/src/input.rs     |  4 +++-
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index aac8123..db0e402 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -258,14 +258,17 @@ struct RawEscaper<'a> {
     extensions: Vec<&'a str>,
 }
 
+/// The place of the configuration file, whether it exists or not
+pub(crate) fn config_file_path(config_path: Option<&str>) -> PathBuf {
+    PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap())
+        .join(config_path.unwrap_or(CONFIG_FILE_NAME))
+}
+
 pub(crate) fn read_config_file(
     config_path: Option<&str>,
 ) -> std::result::Result<String, CompileError> {
     let root = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
-    let filename = match config_path {
-        Some(config_path) => root.join(config_path),
-        None => root.join(CONFIG_FILE_NAME),
-    };
+    let filename = config_file_path(config_path);
 
     if filename.exists() {
         fs::read_to_string(&filename)
diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 7334117..7e45d16 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -100,12 +100,17 @@ impl<'a> Generator<'a> {
         buf.write(CRATE);
         buf.writeln("::Result<()> {")?;
 
-        // Make sure the compiler understands that the generated code depends on the template files.
-        for path in self.contexts.keys() {
-            // Skip the fake path of templates defined in rust source.
+        // Make sure the compiler understands that the generated code depends on the template files
+        // and on the configuration file.
+        let config_path: &Path = &self.input.config_path;
+        let paths = self.contexts.keys().map(|path| &***path);
+        for path in paths.chain(Some(config_path)) {
+            // Skip the fake path of templates defined in rust source, and a configuration file
+            // that does not exist.
             let path_is_valid = match self.input.source {
+                _ if path == config_path => path.exists(),
                 Source::Path(_) => true,
-                Source::Source(_) => **path != self.input.path,
+                Source::Source(_) => *path != *self.input.path,
             };
             if path_is_valid {
                 let canonical_path = path.canonicalize().unwrap();
diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 44e9186..66be465 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -7,7 +7,7 @@ use mime::Mime;
 use quote::ToTokens;
 use syn::punctuated::Punctuated;
 
-use crate::config::{get_template_source, read_config_file, Config};
+use crate::config::{config_file_path, get_template_source, read_config_file, Config};
 use crate::CompileError;
 use parser::{Node, Parsed, Syntax};
 
@@ -22,6 +22,7 @@ pub(crate) struct TemplateInput<'a> {
     pub(crate) ext: Option<&'a str>,
     pub(crate) mime_type: String,
     pub(crate) path: Rc<Path>,
+    pub(crate) config_path: PathBuf,
 }
 
 impl TemplateInput<'_> {
@@ -103,6 +104,7 @@ impl TemplateInput<'_> {
             ext: ext.as_deref(),
             mime_type,
             path,
+            config_path: config_file_path(args.config.as_deref()),
         })
     }
 
-- 
2.43.0


From 2be20ecb6695457c44e9b0b7d8bc954546d4c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 31/40] fix: do not look for what inline templates include in
 the current directory of the compiler

---
 askama_derive/src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index db0e402..cf265e8 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -112,7 +112,8 @@ impl<'a> Config<'a> {
         path: &str,
         start_at: Option<&Path>,
     ) -> std::result::Result<Rc<Path>, CompileError> {
-        if let Some(root) = start_at {
+        // Inline templates are not in any directory, in particular not in the current one
+        if let Some(root) = start_at.filter(|root| root.parent() != Some(Path::new(""))) {
             let relative = root.with_file_name(path);
             if relative.exists() {
                 return Ok(relative.into());
-- 
2.43.0


From e64e96174993abed11b09d95784a28901a987632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 32/40] fix: do not take directories for templates

---
 askama_derive/src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index cf265e8..d4ab973 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -115,14 +115,14 @@ impl<'a> Config<'a> {
         // Inline templates are not in any directory, in particular not in the current one
         if let Some(root) = start_at.filter(|root| root.parent() != Some(Path::new(""))) {
             let relative = root.with_file_name(path);
-            if relative.exists() {
+            if relative.is_file() {
                 return Ok(relative.into());
             }
         }
 
         for dir in &self.dirs {
             let rooted = dir.join(path);
-            if rooted.exists() {
+            if rooted.is_file() {
                 return Ok(rooted.into());
             }
         }
-- 
2.43.0


From a672be5c97f73b69d82b5e75de98dfe1aaa3bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 33/40] fix: do not take a pipe after a space for the one of a
 filter if there is a filter before it

---
 askama_parser/src/lib.rs  | 3 ++-
 askama_parser/src/node.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index 89846ae..218beff 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -644,7 +644,8 @@ impl Level {
 fn filter(i: &str, level: Level) -> ParseResult<'_, (&str, Option<Vec<Expr<'_>>>)> {
     let (i, (_, fname, args)) = tuple((
         char('|'),
-        ws(identifier),
+        // A pipe after whitespace is not the one of a filter
+        preceded(take_till(not_ws), identifier),
         opt(|i| Expr::arguments(i, level, false)),
     ))(i)?;
     Ok((i, (fname, args)))
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index ef29edc..84b522c 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -604,7 +604,7 @@ impl<'a> FilterBlock<'a> {
             cut(tuple((
                 ws(identifier),
                 opt(|i| Expr::arguments(i, s.level.get(), false)),
-                many0(|i| filter(i, s.level.get())),
+                many0(preceded(take_till(not_ws), |i| filter(i, s.level.get()))),
                 ws(|i| Ok((i, ()))),
                 opt(Whitespace::parse),
                 |i| s.tag_block_end(i),
-- 
2.43.0


From 176bd332870fcdf130e2916fd1e4a37cb8616e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 34/40] fix: generated code does not depend on what
 include_bytes and bool mean where the template is

---
 askama_derive/src/generator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 7e45d16..5381ffe 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -117,7 +117,7 @@ impl<'a> Generator<'a> {
                 let include_path = canonical_path.to_str().unwrap();
                 buf.writeln(
                     &quote! {
-                        include_bytes!(#include_path);
+                        ::core::include_bytes!(#include_path);
                     }
                     .to_string(),
                 )?;
@@ -415,7 +415,7 @@ impl<'a> Generator<'a> {
                     buf.write("*(&(");
                     let expr_code = self.visit_expr_root(expr)?;
                     buf.write(&expr_code);
-                    buf.write(") as &bool)");
+                    buf.write(") as &::core::primitive::bool)");
                 }
             } else {
                 buf.dedent()?;
@@ -536,7 +536,7 @@ impl<'a> Generator<'a> {
             self.locals.push();
             buf.write("let _iter = _iter.filter(|");
             self.visit_target(buf, true, true, &loop_block.var);
-            buf.write("| -> bool {");
+            buf.write("| -> ::core::primitive::bool {");
             self.visit_expr(buf, cond)?;
             buf.writeln("});")?;
             self.locals.pop();
@@ -831,7 +831,7 @@ impl<'a> Generator<'a> {
             let include_path = canonical_path.to_str().unwrap();
             buf.writeln(
                 &quote! {
-                    include_bytes!(#include_path);
+                    ::core::include_bytes!(#include_path);
                 }
                 .to_string(),
             )?;
-- 
2.43.0


From 4f282e292e8241a9a2ad98993c0a1d5382cfeceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 35/40] fix: names of generated variables do not shadow
 variables of the template

---
 askama_derive/src/generator.rs | 38 ++++++++++++++++++----------------
 book/src/template_expansion.md | 36 ++++++++++++++++----------------
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 5381ffe..e30d633 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -506,35 +506,37 @@ impl<'a> Generator<'a> {
         let flushed = self.write_buf_writable(buf)?;
         buf.writeln("{")?;
         if has_else_nodes {
-            buf.writeln("let mut _did_loop = false;")?;
+            buf.writeln("let mut __askama_did_loop = false;")?;
         }
         match loop_block.iter {
-            Expr::Range(_, _, _) => buf.writeln(&format!("let _iter = {expr_code};")),
+            Expr::Range(_, _, _) => buf.writeln(&format!("let __askama_iter = {expr_code};")),
             // The array needs a name in order to live as long as its iterator.
             Expr::Array(..) => {
-                buf.writeln(&format!("let _iter = {expr_code};"))?;
-                buf.writeln("let _iter = _iter.iter();")
+                buf.writeln(&format!("let __askama_iter = {expr_code};"))?;
+                buf.writeln("let __askama_iter = __askama_iter.iter();")
             }
             // If `iter` is a call then we assume it's something that returns
             // an iterator. If not then the user can explicitly add the needed
             // call without issues.
             Expr::Call(..) | Expr::Index(..) => {
-                buf.writeln(&format!("let _iter = ({expr_code}).into_iter();"))
+                buf.writeln(&format!("let __askama_iter = ({expr_code}).into_iter();"))
             }
             // If accessing `self` then it most likely needs to be
             // borrowed, to prevent an attempt of moving.
             _ if expr_code.starts_with("self.") => {
-                buf.writeln(&format!("let _iter = (&{expr_code}).into_iter();"))
+                buf.writeln(&format!("let __askama_iter = (&{expr_code}).into_iter();"))
             }
             // If accessing a field then it most likely needs to be
             // borrowed, to prevent an attempt of moving.
-            Expr::Attr(..) => buf.writeln(&format!("let _iter = (&{expr_code}).into_iter();")),
+            Expr::Attr(..) => {
+                buf.writeln(&format!("let __askama_iter = (&{expr_code}).into_iter();"))
+            }
             // Otherwise, we borrow `iter` assuming that it implements `IntoIterator`.
-            _ => buf.writeln(&format!("let _iter = ({expr_code}).into_iter();")),
+            _ => buf.writeln(&format!("let __askama_iter = ({expr_code}).into_iter();")),
         }?;
         if let Some(cond) = &loop_block.cond {
             self.locals.push();
-            buf.write("let _iter = _iter.filter(|");
+            buf.write("let __askama_iter = __askama_iter.filter(|");
             self.visit_target(buf, true, true, &loop_block.var);
             buf.write("| -> ::core::primitive::bool {");
             self.visit_expr(buf, cond)?;
@@ -545,12 +547,12 @@ impl<'a> Generator<'a> {
         self.locals.push();
         buf.write("for (");
         self.visit_target(buf, true, true, &loop_block.var);
-        buf.write(", _loop_item) in ");
+        buf.write(", __askama_loop_item) in ");
         buf.write(CRATE);
-        buf.writeln("::helpers::TemplateLoop::new(_iter) {")?;
+        buf.writeln("::helpers::TemplateLoop::new(__askama_iter) {")?;
 
         if has_else_nodes {
-            buf.writeln("_did_loop = true;")?;
+            buf.writeln("__askama_did_loop = true;")?;
         }
         let mut size_hint1 = self.handle(ctx, &loop_block.body, buf, AstLevel::Nested)?;
         self.handle_ws(loop_block.ws2);
@@ -560,7 +562,7 @@ impl<'a> Generator<'a> {
 
         let mut size_hint2;
         if has_else_nodes {
-            buf.writeln("if !_did_loop {")?;
+            buf.writeln("if !__askama_did_loop {")?;
             self.locals.push();
             size_hint2 = self.handle(ctx, &loop_block.else_nodes, buf, AstLevel::Nested)?;
             self.handle_ws(loop_block.ws3);
@@ -1534,16 +1536,16 @@ impl<'a> Generator<'a> {
         if let Expr::Var(name) = *obj {
             if name == "loop" {
                 if attr == "index" {
-                    buf.write("(_loop_item.index + 1)");
+                    buf.write("(__askama_loop_item.index + 1)");
                     return Ok(DisplayWrap::Unwrapped);
                 } else if attr == "index0" {
-                    buf.write("_loop_item.index");
+                    buf.write("__askama_loop_item.index");
                     return Ok(DisplayWrap::Unwrapped);
                 } else if attr == "first" {
-                    buf.write("_loop_item.first");
+                    buf.write("__askama_loop_item.first");
                     return Ok(DisplayWrap::Unwrapped);
                 } else if attr == "last" {
-                    buf.write("_loop_item.last");
+                    buf.write("__askama_loop_item.last");
                     return Ok(DisplayWrap::Unwrapped);
                 } else {
                     return Err("unknown loop variable".into());
@@ -1592,7 +1594,7 @@ impl<'a> Generator<'a> {
                         buf.write(CRATE);
                         buf.writeln("::Error::Fmt(::core::fmt::Error));")?;
                         buf.writeln("}")?;
-                        buf.writeln("_cycle[_loop_item.index % _len]")?;
+                        buf.writeln("_cycle[__askama_loop_item.index % _len]")?;
                         buf.writeln("})")?;
                     }
                     _ => return Err("loop.cycle(…) expects exactly one argument".into()),
diff --git a/book/src/template_expansion.md b/book/src/template_expansion.md
index cd76d13..2a0e6f9 100644
--- a/book/src/template_expansion.md
+++ b/book/src/template_expansion.md
@@ -245,8 +245,8 @@ will generate:
 
 ```rust
 {
-    let _iter = (&self.users).into_iter();
-    for (user, _loop_item) in ::askama::helpers::TemplateLoop::new(_iter) {
+    let __askama_iter = (&self.users).into_iter();
+    for (user, __askama_loop_item) in ::askama::helpers::TemplateLoop::new(__askama_iter) {
         writer
             .write_fmt(
                 format_args!(
@@ -273,10 +273,10 @@ Which generates:
 
 ```rust
 {
-    let mut _did_loop = false;
-    let _iter = (&self.users).into_iter();
-    for (user, _loop_item) in ::askama::helpers::TemplateLoop::new(_iter) {
-        _did_loop = true;
+    let mut __askama_did_loop = false;
+    let __askama_iter = (&self.users).into_iter();
+    for (user, __askama_loop_item) in ::askama::helpers::TemplateLoop::new(__askama_iter) {
+        __askama_did_loop = true;
         writer
             .write_fmt(
                 format_args!(
@@ -285,7 +285,7 @@ Which generates:
                 ),
             )?;
     }
-    if !_did_loop {
+    if !__askama_did_loop {
         writer
             .write_fmt(
                 format_args!(
@@ -301,9 +301,9 @@ Which generates:
 ::askama::Result::Ok(())
 ```
 
-It creates a `_did_loop` variable which will check if we entered the loop. If
+It creates a `__askama_did_loop` variable which will check if we entered the loop. If
 we didn't (because the iterator didn't return any value), it will enter the
-`else` condition by checking `if !_did_loop {`.
+`else` condition by checking `if !__askama_did_loop {`.
 
 We can extend it even further if we add an `if` condition on our loop:
 
@@ -319,11 +319,11 @@ which generates:
 
 ```rust
 {
-    let mut _did_loop = false;
-    let _iter = (&self.users).into_iter();
-    let _iter = _iter.filter(|user| -> bool { self.users.len() > 2 });
-    for (user, _loop_item) in ::askama::helpers::TemplateLoop::new(_iter) {
-        _did_loop = true;
+    let mut __askama_did_loop = false;
+    let __askama_iter = (&self.users).into_iter();
+    let __askama_iter = __askama_iter.filter(|user| -> bool { self.users.len() > 2 });
+    for (user, __askama_loop_item) in ::askama::helpers::TemplateLoop::new(__askama_iter) {
+        __askama_did_loop = true;
         writer
             .write_fmt(
                 format_args!(
@@ -332,7 +332,7 @@ which generates:
                 ),
             )?;
     }
-    if !_did_loop {
+    if !__askama_did_loop {
         writer
             .write_fmt(
                 format_args!(
@@ -365,9 +365,9 @@ Which generates:
 
 ```rust
 {
-    let _iter = (&self.users).into_iter();
-    let _iter = _iter.filter(|user| -> bool { self.users.len() > 2 });
-    for (user, _loop_item) in ::askama::helpers::TemplateLoop::new(_iter) {
+    let __askama_iter = (&self.users).into_iter();
+    let __askama_iter = __askama_iter.filter(|user| -> bool { self.users.len() > 2 });
+    for (user, __askama_loop_item) in ::askama::helpers::TemplateLoop::new(__askama_iter) {
         writer
             .write_fmt(
                 format_args!(
-- 
2.43.0


From 9f2aea0e56a4182b7526240c0f08f841d91814c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 36/40] fix: generate the same code and errors for the same
 templates every time

---
 askama_derive/src/generator.rs | 5 +++--
 askama_derive/src/heritage.rs  | 4 ++--
 askama_derive/src/input.rs     | 4 ++--
 askama_derive/src/lib.rs       | 8 ++++----
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index e30d633..cdb3539 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1,5 +1,6 @@
 use std::borrow::Cow;
 use std::collections::hash_map::{Entry, HashMap};
+use std::collections::BTreeMap;
 use std::ops::Deref;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
@@ -21,7 +22,7 @@ pub(crate) struct Generator<'a> {
     // The template input state: original struct AST and attributes
     input: &'a TemplateInput<'a>,
     // All contexts, keyed by the package-relative template path
-    contexts: &'a HashMap<&'a Rc<Path>, Context<'a>>,
+    contexts: &'a BTreeMap<&'a Rc<Path>, Context<'a>>,
     // The heritage contains references to blocks and their ancestry
     heritage: Option<&'a Heritage<'a>>,
     // Variables accessible directly from the current scope (not redirected to context)
@@ -50,7 +51,7 @@ pub(crate) struct Generator<'a> {
 impl<'a> Generator<'a> {
     pub(crate) fn new<'n>(
         input: &'n TemplateInput<'_>,
-        contexts: &'n HashMap<&'n Rc<Path>, Context<'n>>,
+        contexts: &'n BTreeMap<&'n Rc<Path>, Context<'n>>,
         heritage: Option<&'n Heritage<'_>>,
         locals: MapChain<'n, Cow<'n, str>, LocalMeta>,
     ) -> Generator<'n> {
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index d0d4584..b06f33d 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::path::Path;
 use std::rc::Rc;
 
@@ -15,7 +15,7 @@ pub(crate) struct Heritage<'a> {
 impl Heritage<'_> {
     pub(crate) fn new<'n>(
         mut ctx: &'n Context<'n>,
-        contexts: &'n HashMap<&'n Rc<Path>, Context<'n>>,
+        contexts: &'n BTreeMap<&'n Rc<Path>, Context<'n>>,
     ) -> Heritage<'n> {
         let mut blocks: BlockAncestry<'n> = ctx
             .blocks
diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 66be465..b500c99 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -1,4 +1,4 @@
-use std::collections::hash_map::HashMap;
+use std::collections::BTreeMap;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::str::FromStr;
@@ -110,7 +110,7 @@ impl TemplateInput<'_> {
 
     pub(crate) fn find_used_templates(
         &self,
-        map: &mut HashMap<Rc<Path>, Parsed>,
+        map: &mut BTreeMap<Rc<Path>, Parsed>,
     ) -> Result<(), CompileError> {
         let (source, source_path) = match &self.source {
             Source::Source(s) => (s.into(), None),
diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index e347001..a3ab99d 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -2,7 +2,7 @@
 #![deny(unreachable_pub)]
 
 use std::fmt;
-use std::{borrow::Cow, collections::HashMap};
+use std::{borrow::Cow, collections::BTreeMap};
 
 use proc_macro::TokenStream;
 use proc_macro2::Span;
@@ -40,7 +40,7 @@ fn build_skeleton(ast: &syn::DeriveInput) -> Result<String, CompileError> {
     let template_args = TemplateArgs::fallback();
     let config = Config::new("", None)?;
     let input = TemplateInput::new(ast, &config, &template_args)?;
-    let mut contexts = HashMap::new();
+    let mut contexts = BTreeMap::new();
     contexts.insert(&input.path, Context::default());
     Generator::new(&input, &contexts, None, MapChain::default()).build(&contexts[&input.path])
 }
@@ -58,10 +58,10 @@ pub(crate) fn build_template(ast: &syn::DeriveInput) -> Result<String, CompileEr
     let config = Config::new(&toml, template_args.whitespace.as_deref())?;
     let input = TemplateInput::new(ast, &config, &template_args)?;
 
-    let mut templates = HashMap::new();
+    let mut templates = BTreeMap::new();
     input.find_used_templates(&mut templates)?;
 
-    let mut contexts = HashMap::new();
+    let mut contexts = BTreeMap::new();
     for (path, parsed) in &templates {
         contexts.insert(path, Context::new(input.config, path, parsed.nodes())?);
     }
-- 
2.43.0


From 311568cc258a626d5e6d4d6aa2caa7b18305b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:28 +0000
Subject: [PATCH 37/40] fix: write gen, a keyword of the 2024 edition, as a raw
 identifier

---
 askama_derive/src/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index cdb3539..968be8e 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2339,6 +2339,7 @@ fn normalize_identifier(ident: &str) -> &str {
         *b"r#box_____",
         *b"r#dyn_____",
         *b"r#for_____",
+        *b"r#gen_____",
         *b"r#let_____",
         *b"r#mod_____",
         *b"r#mut_____",
-- 
2.43.0


From 76133bd92a66319b10b1c05ef03f140fee24f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:16 +0000
Subject: [PATCH 38/40] fix: provide the json filter if its feature is enabled
 by the name serde_json

---
 askama/src/filters/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 2e68afe..24d4fa5 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -9,9 +9,9 @@ use std::cell::Cell;
 use std::convert::Infallible;
 use std::fmt::{self, Write};
 
-#[cfg(feature = "serde-json")]
+#[cfg(feature = "serde_json")]
 mod json;
-#[cfg(feature = "serde-json")]
+#[cfg(feature = "serde_json")]
 pub use self::json::json;
 
 use askama_escape::{Escaper, MarkupDisplay};
-- 
2.43.0


From af07f75029e0427d15d6681ce98d67bac313d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:37 +0000
Subject: [PATCH 39/40] fix: match and if let on the result of a binary
 operator

---
 askama_derive/src/generator.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 968be8e..cddd381 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -401,7 +401,7 @@ impl<'a> Generator<'a> {
                             self.visit_expr(&mut expr_buf, right)?;
                         }
                         _ => {
-                            self.visit_expr(&mut expr_buf, expr)?;
+                            self.visit_referent(&mut expr_buf, expr)?;
                             self.visit_target(buf, true, true, target);
                         }
                     }
@@ -459,8 +459,9 @@ impl<'a> Generator<'a> {
         let flushed = self.write_buf_writable(buf)?;
         let mut arm_sizes = Vec::new();
 
-        let expr_code = self.visit_expr_root(expr)?;
-        buf.writeln(&format!("match &{expr_code} {{"))?;
+        let mut expr_buf = Buffer::new(0);
+        self.visit_referent(&mut expr_buf, expr)?;
+        buf.writeln(&format!("match &{} {{", expr_buf.buf))?;
 
         let mut arm_size = 0;
         for (i, arm) in arms.iter().enumerate() {
@@ -1252,6 +1253,19 @@ impl<'a> Generator<'a> {
 
     /* Visitor methods for expression types */
 
+    /// Writes an expression that follows a `&`, which binds stronger than binary operators.
+    fn visit_referent(&mut self, buf: &mut Buffer, expr: &Expr<'_>) -> Result<(), CompileError> {
+        let needs_parens = matches!(expr, Expr::BinOp(..) | Expr::Range(..));
+        if needs_parens {
+            buf.write("(");
+        }
+        self.visit_expr(buf, expr)?;
+        if needs_parens {
+            buf.write(")");
+        }
+        Ok(())
+    }
+
     fn visit_expr_root(&mut self, expr: &Expr<'_>) -> Result<String, CompileError> {
         let mut buf = Buffer::new(0);
         self.visit_expr(&mut buf, expr)?;
-- 
2.43.0


From bf37324cebe7631d2d87e12792c4b6ca9aaa2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:33 +0000
Subject: [PATCH 40/40] fix: loops over operators and over expressions in
 parentheses

---
 askama_derive/src/generator.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index cddd381..7844242 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -510,22 +510,28 @@ impl<'a> Generator<'a> {
         if has_else_nodes {
             buf.writeln("let mut __askama_did_loop = false;")?;
         }
-        match loop_block.iter {
+        let mut iter = &loop_block.iter;
+        let mut iter_code = expr_code.as_str();
+        while let Expr::Group(inner) = iter {
+            iter = inner;
+            iter_code = &iter_code[1..];
+        }
+        match iter {
             Expr::Range(_, _, _) => buf.writeln(&format!("let __askama_iter = {expr_code};")),
             // The array needs a name in order to live as long as its iterator.
             Expr::Array(..) => {
                 buf.writeln(&format!("let __askama_iter = {expr_code};"))?;
                 buf.writeln("let __askama_iter = __askama_iter.iter();")
             }
-            // If `iter` is a call then we assume it's something that returns
+            // If `iter` is a call or an operator then we assume it's something that returns
             // an iterator. If not then the user can explicitly add the needed
             // call without issues.
-            Expr::Call(..) | Expr::Index(..) => {
+            Expr::Call(..) | Expr::Index(..) | Expr::BinOp(..) => {
                 buf.writeln(&format!("let __askama_iter = ({expr_code}).into_iter();"))
             }
             // If accessing `self` then it most likely needs to be
             // borrowed, to prevent an attempt of moving.
-            _ if expr_code.starts_with("self.") => {
+            _ if iter_code.starts_with("self.") => {
                 buf.writeln(&format!("let __askama_iter = (&{expr_code}).into_iter();"))
             }
             // If accessing a field then it most likely needs to be
-- 
2.43.0

