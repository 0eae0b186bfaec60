From 6355b0cee1a827596ed980dc4a3601e3726327d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 01/12] fix: `line-ending = "auto"` uses the first detected
 line ending

Files with mixed line endings are documented to be converted to the first
detected line ending, but any `\r\n` anywhere in the file won, so that
"a\nb\r\n" was converted to `\r\n` throughout.
---
 crates/line_ending/src/lib.rs                | 12 ++++++++++++
 crates/workspace/src/settings/line_ending.rs |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/line_ending/src/lib.rs b/crates/line_ending/src/lib.rs
index e3d18a6..13bbb97 100644
--- a/crates/line_ending/src/lib.rs
+++ b/crates/line_ending/src/lib.rs
@@ -19,6 +19,18 @@ pub fn infer(x: &str) -> LineEnding {
     }
 }
 
+/// Detect the first line ending in `x`
+///
+/// Unlike [infer()], which looks for any `\r\n`, this only looks at how the first line
+/// ends. Defaults to [LineEnding::Lf] if there are no line endings.
+pub fn infer_first(x: &str) -> LineEnding {
+    let x = x.as_bytes();
+    match memchr::memchr(b'\n', x) {
+        Some(i) if i > 0 && x[i - 1] == b'\r' => LineEnding::Crlf,
+        Some(_) | None => LineEnding::Lf,
+    }
+}
+
 /// Normalize line endings within a string
 ///
 /// We replace `\r\n` with `\n` in-place, which doesn't break utf-8 encoding.
diff --git a/crates/workspace/src/settings/line_ending.rs b/crates/workspace/src/settings/line_ending.rs
index da9eb48..e1eba36 100644
--- a/crates/workspace/src/settings/line_ending.rs
+++ b/crates/workspace/src/settings/line_ending.rs
@@ -47,7 +47,7 @@ impl LineEnding {
             LineEnding::Native => settings::LineEnding::Crlf,
             #[cfg(not(target_os = "windows"))]
             LineEnding::Native => settings::LineEnding::Lf,
-            LineEnding::Auto => line_ending::infer(source),
+            LineEnding::Auto => line_ending::infer_first(source),
         }
     }
 }
-- 
2.43.0


From 8c8ebf44a6e336ae201758039eb771c7a35e7a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 02/12] fix: default include pattern no longer matches files
 ending in `.,`

`[R,r]` is a character class that also contains the comma.
---
 crates/workspace/src/settings/default_include_patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/workspace/src/settings/default_include_patterns.rs b/crates/workspace/src/settings/default_include_patterns.rs
index 69508e1..58a5fc9 100644
--- a/crates/workspace/src/settings/default_include_patterns.rs
+++ b/crates/workspace/src/settings/default_include_patterns.rs
@@ -9,7 +9,7 @@ use crate::file_patterns::DefaultFilePatterns;
 /// be supplied here.
 static DEFAULT_INCLUDE_PATTERN_NAMES: &[&str] = &[
     // R files with any filename at any depth
-    "**/*.[R,r]",
+    "**/*.[Rr]",
 ];
 
 static DEFAULT_INCLUDE_PATTERNS: LazyLock<DefaultFilePatterns> = LazyLock::new(|| {
-- 
2.43.0


From 86a3fd80629307712c75844ac4bd2041ba8f7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:24 +0000
Subject: [PATCH 03/12] fix: a text edit keeps one of several equal deletions

`check_disjoint()` accepts equal edits, but `finish()` kept all of them, so that
`apply()` deleted the text twice.
---
 crates/aether_lsp_utils/src/text_edit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/aether_lsp_utils/src/text_edit.rs b/crates/aether_lsp_utils/src/text_edit.rs
index d91c836..72b7aca 100644
--- a/crates/aether_lsp_utils/src/text_edit.rs
+++ b/crates/aether_lsp_utils/src/text_edit.rs
@@ -225,6 +225,9 @@ where
 fn coalesce_indels(indels: Vec<Indel>) -> Vec<Indel> {
     indels
         .into_iter()
+        // `check_disjoint()` lets equal edits through. Like in `union()`, equal deletions
+        // and replacements are a single edit, but all insertions are kept.
+        .dedup_by(|a, b| a == b && !a.delete.is_empty())
         .coalesce(|mut a, b| {
             if a.delete.end() == b.delete.start() {
                 a.insert.push_str(&b.insert);
-- 
2.43.0


From b03d44cb704b45ad84f0e65d507a59fd26015c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:24 +0000
Subject: [PATCH 04/12] fix: apply inserts at the same position in array order

The edits were sorted by descending start with a stable sort and then applied one
after the other, which put the first of two inserts at a position behind the second.
---
 crates/aether_lsp_utils/src/proto/from_proto.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/aether_lsp_utils/src/proto/from_proto.rs b/crates/aether_lsp_utils/src/proto/from_proto.rs
index 7eaabe2..5c6470e 100644
--- a/crates/aether_lsp_utils/src/proto/from_proto.rs
+++ b/crates/aether_lsp_utils/src/proto/from_proto.rs
@@ -137,20 +137,22 @@ pub fn apply_text_edits(
     line_index: &mut LineIndex,
     position_encoding: PositionEncoding,
 ) {
-    // Sort edits in reverse order by start position to ensure that edits
+    // Apply edits in reverse order by start position to ensure that edits
     // applied later in the document don’t shift the ranges of edits earlier in
     // the document. This way, edits in the bottom don't invalidate the
     // positions of edits at the top. Use stable sort to preserve the original
     // order for edits at the same position (which defines insertion order per
-    // LSP spec).
+    // LSP spec), and reverse afterwards: of two inserts at the same position, the
+    // one applied last is the one that comes first in the document.
     edits.sort_by(|a, b| {
         let a_start = a.range.start;
         let b_start = b.range.start;
-        b_start
+        a_start
             .line
-            .cmp(&a_start.line)
-            .then_with(|| b_start.character.cmp(&a_start.character))
+            .cmp(&b_start.line)
+            .then_with(|| a_start.character.cmp(&b_start.character))
     });
+    edits.reverse();
 
     let changes: Vec<lsp_types::TextDocumentContentChangeEvent> = edits
         .into_iter()
-- 
2.43.0


From fe1d550c3891894dd4e73bfa73f547fe642249d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:23 +0000
Subject: [PATCH 05/12] fix: list document changes from the bottom up

Changes are applied one after the other, but the ranges of `doc_edit_vec()` all refer
to the original document.
---
 crates/aether_lsp_utils/src/proto/to_proto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/aether_lsp_utils/src/proto/to_proto.rs b/crates/aether_lsp_utils/src/proto/to_proto.rs
index bfb194b..9b2fd7e 100644
--- a/crates/aether_lsp_utils/src/proto/to_proto.rs
+++ b/crates/aether_lsp_utils/src/proto/to_proto.rs
@@ -89,8 +89,11 @@ pub fn doc_edit_vec(
 ) -> anyhow::Result<Vec<lsp_types::TextDocumentContentChangeEvent>> {
     let edits = text_edit_vec(text_edit, line_index, position_encoding, endings)?;
 
+    // The edits all refer to the original document but changes are applied one after the
+    // other, so go from the bottom up to keep the ranges of the remaining ones valid
     Ok(edits
         .into_iter()
+        .rev()
         .map(|edit| lsp_types::TextDocumentContentChangeEvent {
             range: Some(edit.range),
             range_length: None,
-- 
2.43.0


From d8b8eac3bb4fa9c19c204182fe7eaf04ecb19264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 06/12] fix: don't format CRLF documents with CRLF a second
 time

---
 crates/lsp/src/handlers_format.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index 73f08c8..be14d4e 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -1,6 +1,7 @@
 use air_r_syntax::{RExpressionList, RSyntaxKind, RSyntaxNode, WalkEvent};
 use biome_rowan::{AstNode, Language, SyntaxElement};
 use biome_text_size::{TextRange, TextSize};
+use settings::LineEnding;
 use tower_lsp::lsp_types;
 use workspace::format::FormattedSource;
 use workspace::format::format_source_with_parse;
@@ -44,7 +45,13 @@ pub(crate) fn document_formatting(
         return Ok(None);
     }
 
-    let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
+    let mut format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
+
+    // The contents have Unix line endings and the edits are sent back in the original
+    // `endings`. If these are CRLF, the formatter must not add carriage returns on its own.
+    if let LineEnding::Crlf = doc.endings {
+        format_options.set_line_ending(LineEnding::Lf);
+    }
 
     match format_source_with_parse(&doc.contents, &doc.parse, format_options)? {
         FormattedSource::Changed(mut formatted) => {
@@ -138,7 +145,13 @@ pub(crate) fn document_range_formatting(
     let eof = air_r_syntax::RSyntaxToken::new_detached(RSyntaxKind::EOF, "", vec![], vec![]);
     let root = air_r_factory::r_root(list, eof).build();
 
-    let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
+    let mut format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
+
+    // The contents have Unix line endings and the edits are sent back in the original
+    // `endings`. If these are CRLF, the formatter must not add carriage returns on its own.
+    if let LineEnding::Crlf = doc.endings {
+        format_options.set_line_ending(LineEnding::Lf);
+    }
 
     let format_info = biome_formatter::format_sub_tree(
         root.syntax(),
-- 
2.43.0


From e95f74b85a7106372109ca6868c8f341379b7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:54 +0000
Subject: [PATCH 07/12] fix: load settings once an air.toml that was invalid at
 startup is fixed

---
 crates/lsp/src/workspaces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 1cbc000..fecf52e 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -88,7 +88,9 @@ impl WorkspaceSettingsResolver {
             Ok(discovered_settings) => discovered_settings,
             Err(error) => {
                 failed_to_open_workspace_folder(url, error);
-                return;
+                // Still open the workspace, without settings, so that they can be
+                // reloaded once the `air.toml` is fixed
+                Vec::new()
             }
         };
 
-- 
2.43.0


From e7d098c14b38ed59fd6a81e20a77f6d5ec7cd65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:00 +0000
Subject: [PATCH 08/12] fix: synchronize file settings when an air.toml is
 removed or becomes invalid

---
 crates/lsp/src/workspaces.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index fecf52e..301f397 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -188,6 +188,8 @@ impl WorkspaceSettingsResolver {
                 workspace_settings_resolver.clear();
             }
 
+            changed = true;
+
             let workspace_path = workspace_match.path();
 
             tracing::trace!("Reloading workspace settings: {}", workspace_path.display());
@@ -209,7 +211,6 @@ impl WorkspaceSettingsResolver {
                 settings,
             } in discovered_settings
             {
-                changed = true;
                 workspace_settings_resolver.add(&directory, settings);
             }
         }
-- 
2.43.0


From f893f0dbcdcac9c9e87077777da3e13b13a5ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:00 +0000
Subject: [PATCH 09/12] fix: reload nested workspaces governed by a changed
 air.toml of a parent directory

---
 crates/lsp/src/workspaces.rs    | 13 ++++++++++++-
 crates/workspace/src/resolve.rs |  4 ++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 301f397..19867f2 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -180,7 +180,18 @@ impl WorkspaceSettingsResolver {
 
         let mut changed = false;
 
-        for workspace_match in self.path_to_settings_resolver.matches_mut(&path) {
+        let directory = path.parent();
+
+        for workspace_match in self.path_to_settings_resolver.items_mut() {
+            // Settings are discovered by looking up from the workspace path, so the
+            // `air.toml` may also govern workspaces nested below its own directory
+            let workspace_path = workspace_match.path();
+            if !path.starts_with(workspace_path)
+                && !directory.is_some_and(|directory| workspace_path.starts_with(directory))
+            {
+                continue;
+            }
+
             // Clear existing settings up front, regardless of what happens when reloading.
             // Done in a tight scope to avoid simultaneous mutable and immutable borrows.
             {
diff --git a/crates/workspace/src/resolve.rs b/crates/workspace/src/resolve.rs
index 7d9e5e1..ae263af 100644
--- a/crates/workspace/src/resolve.rs
+++ b/crates/workspace/src/resolve.rs
@@ -114,6 +114,10 @@ impl<T> PathResolver<T> {
         &self.items
     }
 
+    pub fn items_mut(&mut self) -> &mut [PathItem<T>] {
+        &mut self.items
+    }
+
     pub fn len(&self) -> usize {
         self.items.len()
     }
-- 
2.43.0


From 04811ace9c951032637033ed9d6f262ed59f2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:58 +0000
Subject: [PATCH 10/12] fix: keep an operator on the line of a commented unary
 operand

The argument of a unary operator that a comment separates from it was
followed by a line break. In `- # comment
f(a) + b` that moved the `+` to a line of its own, where it starts another
expression.
---
 crates/air_r_formatter/src/r/auxiliary/unary_expression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs b/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
index af6131c..1826116 100644
--- a/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
@@ -4,6 +4,7 @@ use air_r_syntax::AnyRExpression;
 use air_r_syntax::RSyntaxKind;
 use air_r_syntax::RSyntaxToken;
 use air_r_syntax::{RUnaryExpression, RUnaryExpressionFields};
+use biome_formatter::format_args;
 use biome_formatter::write;
 
 #[derive(Debug, Clone, Default)]
@@ -23,7 +24,10 @@ impl FormatNodeRule<RUnaryExpression> for FormatRUnaryExpression {
             {
                 // If an existing comment separates the operator and its argument, we are
                 // forced to line break
-                write!(f, [soft_block_indent(&argument.format())])
+                write!(
+                    f,
+                    [indent(&format_args![soft_line_break(), argument.format()])]
+                )
             } else {
                 // Otherwise we never line break
                 write!(f, [argument.format()])
-- 
2.43.0


From 7cd88219f2bef6aba40fe681ac97792ae961f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:02 +0000
Subject: [PATCH 11/12] fix: comments between a function and its arguments lead
 the call

Such a comment, on its own line in parentheses, led the arguments, which moved
them to a line of their own. In a body that is given braces they were no longer
the arguments of the call.
---
 crates/air_r_formatter/src/comments.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/crates/air_r_formatter/src/comments.rs b/crates/air_r_formatter/src/comments.rs
index 4197cfa..d94e6fd 100644
--- a/crates/air_r_formatter/src/comments.rs
+++ b/crates/air_r_formatter/src/comments.rs
@@ -92,6 +92,7 @@ impl CommentStyle for RCommentStyle {
                 .or_else(handle_repeat_comment)
                 .or_else(handle_if_statement_comment)
                 .or_else(handle_else_clause_comment)
+                .or_else(handle_call_comment)
                 .or_else(handle_parenthesized_expression_comment)
                 .or_else(handle_argument_name_clause_comment)
                 .or_else(handle_argument_comment)
@@ -665,6 +666,31 @@ fn place_leading_or_dangling_alternative_comment(
     }
 }
 
+fn handle_call_comment(comment: DecoratedComment<RLanguage>) -> CommentPlacement<RLanguage> {
+    let enclosing = comment.enclosing_node();
+
+    // A comment on its own line between a function and its arguments can only be written
+    // where line breaks don't end an expression. If it leads the arguments, then they
+    // end up on a line of their own, which is no longer a call once it is in braces
+    // (that may have been added by us). So we move the comment to lead the whole call.
+    //
+    // ```r
+    // (
+    //   fn
+    //   # comment
+    //   (x)
+    // )
+    // ```
+    if matches!(
+        enclosing.kind(),
+        RSyntaxKind::R_CALL | RSyntaxKind::R_SUBSET | RSyntaxKind::R_SUBSET2
+    ) {
+        return CommentPlacement::leading(enclosing.clone(), comment);
+    }
+
+    CommentPlacement::Default(comment)
+}
+
 fn handle_parenthesized_expression_comment(
     comment: DecoratedComment<RLanguage>,
 ) -> CommentPlacement<RLanguage> {
-- 
2.43.0


From 7204bda2d75551667b48327d66c49829e91acbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:36 +0000
Subject: [PATCH 12/12] fix: comments in front of a number in a table go before
 its padding

The padding of a right-aligned number was printed before the number's leading
comments: the comment was indented by it, and the number was not aligned.
---
 .../src/call_arguments_table.rs               | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/crates/air_r_formatter/src/call_arguments_table.rs b/crates/air_r_formatter/src/call_arguments_table.rs
index 3d6affa..6601465 100644
--- a/crates/air_r_formatter/src/call_arguments_table.rs
+++ b/crates/air_r_formatter/src/call_arguments_table.rs
@@ -96,21 +96,22 @@ impl FormatRCallArguments {
                         (0, 0)
                     };
 
+                    let arg_syntax = arg_data.node.syntax();
+
+                    // Suppression comments do nothing inside a table
+                    f.comments().mark_suppression_checked(arg_syntax);
+
+                    // We format the argument without comments, so we're in
+                    // charge of formatting them. Leading comments are on their
+                    // own line and must come before the left padding.
+                    format_leading_comments(arg_syntax).fmt(f)?;
+
                     // Add left padding for right-aligned values
                     write_spaces(left_pad, f)?;
 
                     // Format the value
                     match &arg_data.kind {
                         ArgKind::Other { text } => {
-                            let arg_syntax = arg_data.node.syntax();
-
-                            // Suppression comments do nothing inside a table
-                            f.comments().mark_suppression_checked(arg_syntax);
-
-                            // We've formatted the argument without comments, so
-                            // we're in charge of formatting them
-                            format_leading_comments(arg_syntax).fmt(f)?;
-
                             // 0-length arguments are holes. Don't print them
                             // because a `text("")` after a `Space` will prevent
                             // the latter from being considered trailing by the
@@ -118,17 +119,15 @@ impl FormatRCallArguments {
                             if !text.is_empty() {
                                 write!(f, [dynamic_text(text, 0.into())])?;
                             }
-
-                            format_trailing_comments(arg_syntax).fmt(f)?;
                         }
 
                         ArgKind::Numeric { .. } => {
-                            // For numeric types, format the node directly. This
-                            // handles comments as well.
-                            write!(f, [arg_data.node.format()])?;
+                            fmt_argument_fields(&arg_data.node, f)?;
                         }
                     }
 
+                    format_trailing_comments(arg_syntax).fmt(f)?;
+
                     // Add right padding (but not for the last item)
                     if !arg_data.is_last_in_list {
                         write_spaces(right_pad, f)?;
-- 
2.43.0

