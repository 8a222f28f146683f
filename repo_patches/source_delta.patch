From df2985279b9a8c0c2a049b152249d8fbe8320f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 01/37] fix: formatter keeps the type annotation of a constant

---
 crates/compiler/formatter/src/rules/items.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index beaed17..13c2a17 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -145,14 +145,22 @@ impl Format for StructDef {
 
 impl Format for ConstDef {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        Doc::concat(vec![
+        let mut parts = vec![
             Doc::text("const"),
             Doc::text(" "),
             Doc::text(self.name.value()),
-            Doc::text(" = "),
-            self.value.value().format(ctx),
-            Doc::text(";"),
-        ])
+        ];
+
+        if let Some(ty) = &self.ty {
+            parts.push(Doc::text(": "));
+            parts.push(ty.value().format(ctx));
+        }
+
+        parts.push(Doc::text(" = "));
+        parts.push(self.value.value().format(ctx));
+        parts.push(Doc::text(";"));
+
+        Doc::concat(parts)
     }
 }
 
-- 
2.43.0


From 5df3f9d49773ef309a1be38734ed25740a946563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 02/37] fix: formatter prints a use without a module path as it
 was written

---
 crates/compiler/formatter/src/rules/items.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 13c2a17..e009ec9 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -175,8 +175,10 @@ impl Format for UseStmt {
             .map(|p| p.value().as_str())
             .collect::<Vec<_>>()
             .join("::");
-        parts.push(Doc::text(path_str));
-        parts.push(Doc::text("::"));
+        if !path_str.is_empty() {
+            parts.push(Doc::text(path_str));
+            parts.push(Doc::text("::"));
+        }
 
         // Format the items
         match &self.items {
-- 
2.43.0


From b8aa172b7fcaa691cd9de7859319a54b30899cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 03/37] fix: formatter keeps the comma of one-element tuples

---
 crates/compiler/formatter/src/rules/expressions.rs |  2 +-
 crates/compiler/formatter/src/rules/types.rs       |  2 +-
 crates/compiler/formatter/src/utils.rs             | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/expressions.rs b/crates/compiler/formatter/src/rules/expressions.rs
index b9cce2e..a57c6eb 100644
--- a/crates/compiler/formatter/src/rules/expressions.rs
+++ b/crates/compiler/formatter/src/rules/expressions.rs
@@ -54,7 +54,7 @@ impl Format for Expression {
                     .iter()
                     .map(|e| e.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(elem_docs))
+                tuple(elem_docs)
             }
             Self::StructLiteral { name, fields } => {
                 let field_docs = fields
diff --git a/crates/compiler/formatter/src/rules/types.rs b/crates/compiler/formatter/src/rules/types.rs
index fe4e90f..2b23ce4 100644
--- a/crates/compiler/formatter/src/rules/types.rs
+++ b/crates/compiler/formatter/src/rules/types.rs
@@ -15,7 +15,7 @@ impl Format for TypeExpr {
                     .iter()
                     .map(|t| t.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(type_docs))
+                tuple(type_docs)
             }
             Self::FixedArray { element_type, size } => Doc::concat(vec![
                 Doc::text("["),
diff --git a/crates/compiler/formatter/src/utils.rs b/crates/compiler/formatter/src/utils.rs
index e04c7dd..baa7fe5 100644
--- a/crates/compiler/formatter/src/utils.rs
+++ b/crates/compiler/formatter/src/utils.rs
@@ -10,6 +10,16 @@ pub fn comma_separated(items: Vec<Doc>) -> Doc {
     Doc::join(Doc::text(", "), items)
 }
 
+/// Helper function to format a tuple; a single element keeps its trailing comma,
+/// without which it would be a parenthesized element instead
+pub fn tuple(mut items: Vec<Doc>) -> Doc {
+    if items.len() == 1 {
+        items.push(Doc::nil());
+        return parens(Doc::join(Doc::text(","), items));
+    }
+    parens(comma_separated(items))
+}
+
 /// Helper function to wrap in parentheses
 pub fn parens(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("("), inner, Doc::text(")")])
-- 
2.43.0


From cd04b9f9a95fa85bc69ad16bd4157e706464688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 04/37] fix: formatter keeps condition parentheses that the
 parser needs

---
 .../formatter/src/rules/statements.rs         | 45 +++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 4f989a5..f457b3d 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -1,8 +1,9 @@
-use cairo_m_compiler_parser::parser::{Pattern, Spanned, Statement};
+use cairo_m_compiler_parser::parser::{Expression, Pattern, Spanned, Statement};
 
 use crate::Format;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
+use crate::utils::parens;
 
 // Implement Format for Spanned<Statement> to handle comments
 impl Format for Spanned<Statement> {
@@ -74,7 +75,7 @@ impl Format for Statement {
                 let mut parts = vec![
                     Doc::text("if"),
                     Doc::text(" "),
-                    condition.value().format(ctx),
+                    format_condition(condition.value(), then_block.value(), ctx),
                     Doc::text(" "),
                     then_block.value().format(ctx),
                 ];
@@ -112,7 +113,7 @@ impl Format for Statement {
             Self::While { condition, body } => Doc::concat(vec![
                 Doc::text("while"),
                 Doc::text(" "),
-                condition.value().format(ctx),
+                format_condition(condition.value(), body.value(), ctx),
                 Doc::text(" "),
                 body.value().format(ctx),
             ]),
@@ -156,6 +157,44 @@ impl Format for Statement {
     }
 }
 
+/// Formats the condition of an `if` or `while`. The parentheses around it are dropped, except where
+/// the text would then be parsed differently: when the condition itself starts with a parenthesis,
+/// and when an empty block after an identifier would turn it into a struct literal.
+fn format_condition(condition: &Expression, block: &Statement, ctx: &mut FormatterCtx) -> Doc {
+    let empty_block = matches!(block, Statement::Block(statements) if statements.is_empty());
+    let doc = condition.format(ctx);
+    if starts_with_paren(condition) || (empty_block && ends_with_identifier(condition)) {
+        parens(doc)
+    } else {
+        doc
+    }
+}
+
+/// Whether the text of the expression starts with `(`
+fn starts_with_paren(expr: &Expression) -> bool {
+    match expr {
+        Expression::Parenthesized(_) | Expression::Tuple(_) => true,
+        Expression::BinaryOp { left: first, .. }
+        | Expression::FunctionCall { callee: first, .. }
+        | Expression::IndexAccess { array: first, .. }
+        | Expression::MemberAccess { object: first, .. }
+        | Expression::TupleIndex { tuple: first, .. }
+        | Expression::Cast { expr: first, .. } => starts_with_paren(first.value()),
+        _ => false,
+    }
+}
+
+/// Whether the text of the expression ends with a name that `{}` would extend
+fn ends_with_identifier(expr: &Expression) -> bool {
+    match expr {
+        Expression::Identifier(_) => true,
+        Expression::BinaryOp { right: last, .. } | Expression::UnaryOp { expr: last, .. } => {
+            ends_with_identifier(last.value())
+        }
+        _ => false,
+    }
+}
+
 impl Format for Pattern {
     fn format(&self, _ctx: &mut FormatterCtx) -> Doc {
         match self {
-- 
2.43.0


From 811cd62642b62a4332c32a85476c2a516a697978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 05/37] fix: formatter no longer drops comments in blocks,
 after the last item or inside items

---
 .../formatter/src/comment_attachment.rs       | 184 ++++++------------
 crates/compiler/formatter/src/rules/items.rs  |   8 +-
 .../formatter/src/rules/statements.rs         |  23 ++-
 .../formatter/src/simple_comment_preserver.rs |   2 +-
 4 files changed, 79 insertions(+), 138 deletions(-)

diff --git a/crates/compiler/formatter/src/comment_attachment.rs b/crates/compiler/formatter/src/comment_attachment.rs
index 537c198..2b3b809 100644
--- a/crates/compiler/formatter/src/comment_attachment.rs
+++ b/crates/compiler/formatter/src/comment_attachment.rs
@@ -1,6 +1,4 @@
-use cairo_m_compiler_parser::parser::{
-    Expression, FunctionDef, ParsedModule, Statement, TopLevelItem,
-};
+use cairo_m_compiler_parser::parser::{ParsedModule, Spanned, Statement, TopLevelItem};
 use chumsky::span::SimpleSpan;
 
 use crate::trivia::{
@@ -31,23 +29,19 @@ pub fn attach_comments_to_ast(module: &ParsedModule, source: &str) -> CommentBuc
     // Sort spans by start position for efficient attachment
     node_spans.sort_by_key(|span| span.start);
 
-    // Find the first code position (non-comment, non-whitespace)
+    // Find the line of the first code (non-comment, non-whitespace)
     let first_code_pos = source
-        .lines()
-        .enumerate()
+        .split_inclusive('\n')
+        .scan(0, |pos, line| {
+            let start = *pos;
+            *pos += line.len();
+            Some((start, line))
+        })
         .find(|(_, line)| {
             let trimmed = line.trim();
             !trimmed.is_empty() && !trimmed.starts_with("//")
         })
-        .map(|(line_num, _)| {
-            source
-                .lines()
-                .take(line_num)
-                .map(|l| l.len() + 1)
-                .sum::<usize>()
-                .saturating_sub(1)
-        })
-        .unwrap_or(0);
+        .map_or(usize::MAX, |(start, _)| start);
 
     // For each comment, find the best node to attach it to
     for comment in comments {
@@ -56,7 +50,18 @@ pub fn attach_comments_to_ast(module: &ParsedModule, source: &str) -> CommentBuc
             continue;
         }
 
-        if let Some(node_span) = find_best_attachment(&comment, &node_spans, source) {
+        // Only consider the nodes beside the comment, not those outside of the node it is in
+        let enclosing = find_enclosing_node(&comment, &node_spans);
+        let siblings: Vec<_> = match enclosing {
+            Some(outer) => node_spans
+                .iter()
+                .copied()
+                .filter(|s| outer.start <= s.start && s.end <= outer.end && *s != outer)
+                .collect(),
+            None => node_spans.clone(),
+        };
+
+        if let Some(node_span) = find_best_attachment(&comment, &siblings, source) {
             match determine_comment_position(comment.span, node_span, source) {
                 Some(CommentPosition::Before) => {
                     buckets.add_leading(node_span, comment);
@@ -67,20 +72,21 @@ pub fn attach_comments_to_ast(module: &ParsedModule, source: &str) -> CommentBuc
                 Some(CommentPosition::After) => {
                     buckets.add_trailing(node_span, comment);
                 }
-                None => {
-                    // Orphaned comment - attach to nearest node
-                    if let Some(nearest) = find_nearest_node(&comment, &node_spans) {
-                        buckets.add_leading(nearest, comment);
-                    }
-                }
+                None => {}
             }
+        } else if let Some(previous) = find_previous_node(&comment, &siblings) {
+            // Orphaned comment - keep it after the previous node
+            buckets.add_trailing(previous, comment);
+        } else if let Some(outer) = enclosing {
+            // There is none - keep it before the node it is in
+            buckets.add_leading(outer, comment);
         }
     }
 
     buckets
 }
 
-/// Collect all spans from AST nodes
+/// Collect the spans of the nodes that are printed with their comments: items and the statements of blocks
 fn collect_node_spans(module: &ParsedModule, spans: &mut Vec<SimpleSpan<usize>>) {
     for item in &module.items {
         collect_item_spans(item, spans);
@@ -91,7 +97,9 @@ fn collect_item_spans(item: &TopLevelItem, spans: &mut Vec<SimpleSpan<usize>>) {
     match item {
         TopLevelItem::Function(func) => {
             spans.push(func.span());
-            collect_function_spans(func.value(), spans);
+            for stmt in &func.value().body {
+                collect_statement_spans(stmt, spans);
+            }
         }
         TopLevelItem::Struct(s) => {
             spans.push(s.span());
@@ -105,112 +113,33 @@ fn collect_item_spans(item: &TopLevelItem, spans: &mut Vec<SimpleSpan<usize>>) {
     }
 }
 
-fn collect_function_spans(func: &FunctionDef, spans: &mut Vec<SimpleSpan<usize>>) {
-    // Collect spans from function body statements
-    for stmt in &func.body {
-        collect_statement_spans(stmt, spans);
-    }
-}
-
-fn collect_statement_spans(
-    stmt: &cairo_m_compiler_parser::parser::Spanned<Statement>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
+fn collect_statement_spans(stmt: &Spanned<Statement>, spans: &mut Vec<SimpleSpan<usize>>) {
     spans.push(stmt.span());
+    collect_block_spans(stmt.value(), spans);
+}
 
-    // Recursively collect from nested statements and expressions
-    match stmt.value() {
+/// Collect the spans of the statements inside the blocks of a statement
+fn collect_block_spans(stmt: &Statement, spans: &mut Vec<SimpleSpan<usize>>) {
+    match stmt {
         Statement::If {
-            condition,
             then_block,
             else_block,
+            ..
         } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(then_block, spans);
+            collect_block_spans(then_block.value(), spans);
             if let Some(else_stmt) = else_block {
-                collect_statement_spans(else_stmt, spans);
+                collect_block_spans(else_stmt.value(), spans);
             }
         }
-        Statement::While { condition, body } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(body, spans);
-        }
-        Statement::For {
-            init,
-            condition,
-            step,
-            body,
-        } => {
-            collect_statement_spans(init, spans);
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(step, spans);
-            collect_statement_spans(body, spans);
+        Statement::Loop { body } | Statement::While { body, .. } | Statement::For { body, .. } => {
+            collect_block_spans(body.value(), spans);
         }
         Statement::Block(statements) => {
             for s in statements {
                 collect_statement_spans(s, spans);
             }
         }
-        Statement::Let { value, .. } => {
-            collect_expression_spans(value, spans);
-        }
-        Statement::Assignment { lhs, rhs } => {
-            collect_expression_spans(lhs, spans);
-            collect_expression_spans(rhs, spans);
-        }
-        Statement::Return { value: Some(expr) } => {
-            collect_expression_spans(expr, spans);
-        }
-        Statement::Return { value: None } => {}
-        Statement::Expression(expr) => {
-            collect_expression_spans(expr, spans);
-        }
-        _ => {} // Other statement types
-    }
-}
-
-fn collect_expression_spans(
-    expr: &cairo_m_compiler_parser::parser::Spanned<Expression>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
-    spans.push(expr.span());
-
-    // Recursively collect from nested expressions
-    match expr.value() {
-        Expression::BinaryOp { left, right, .. } => {
-            collect_expression_spans(left, spans);
-            collect_expression_spans(right, spans);
-        }
-        Expression::UnaryOp { expr, .. } => {
-            collect_expression_spans(expr, spans);
-        }
-        Expression::FunctionCall { callee, args } => {
-            collect_expression_spans(callee, spans);
-            for arg in args {
-                collect_expression_spans(arg, spans);
-            }
-        }
-        Expression::IndexAccess { array, index } => {
-            collect_expression_spans(array, spans);
-            collect_expression_spans(index, spans);
-        }
-        Expression::MemberAccess { object, .. } => {
-            collect_expression_spans(object, spans);
-        }
-        Expression::Tuple(elements) => {
-            for elem in elements {
-                collect_expression_spans(elem, spans);
-            }
-        }
-        Expression::Parenthesized(inner) => {
-            collect_expression_spans(inner, spans);
-        }
-        Expression::StructLiteral { fields, .. } => {
-            for (_, value) in fields {
-                collect_expression_spans(value, spans);
-            }
-        }
-        _ => {} // Literals and identifiers
+        _ => {} // Statements without blocks
     }
 }
 
@@ -268,19 +197,26 @@ fn find_best_attachment(
         .map(|(span, _pos, _distance, _rank)| span)
 }
 
-/// Find the nearest node to a comment
-fn find_nearest_node(
+/// Find the innermost node around a comment
+fn find_enclosing_node(
     comment: &Comment,
     node_spans: &[SimpleSpan<usize>],
 ) -> Option<SimpleSpan<usize>> {
     node_spans
         .iter()
-        .min_by_key(|&&span| {
-            if comment.span.start < span.start {
-                span.start - comment.span.start
-            } else {
-                comment.span.start - span.end
-            }
-        })
+        .filter(|span| span.start < comment.span.start && comment.span.start < span.end)
+        .min_by_key(|span| span.end - span.start)
+        .copied()
+}
+
+/// Find the last node before a comment
+fn find_previous_node(
+    comment: &Comment,
+    node_spans: &[SimpleSpan<usize>],
+) -> Option<SimpleSpan<usize>> {
+    node_spans
+        .iter()
+        .filter(|span| span.end <= comment.span.start)
+        .max_by_key(|span| (span.end, span.end - span.start))
         .copied()
 }
diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index e009ec9..143d6f3 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -5,6 +5,7 @@ use cairo_m_compiler_parser::parser::{
 use crate::Format;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
+use crate::rules::statements::with_trailing_comments;
 use crate::utils::*;
 
 impl Format for ParsedModule {
@@ -46,12 +47,7 @@ impl Format for TopLevelItem {
         }
 
         // Add trailing comments
-        if let Some(trailing) = ctx.get_trailing_comments(span) {
-            let comments: Vec<String> = trailing.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_trailing_comments(doc, comments);
-        }
-
-        doc
+        with_trailing_comments(doc, span, ctx)
     }
 }
 
diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index f457b3d..6e9678c 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -1,4 +1,5 @@
 use cairo_m_compiler_parser::parser::{Expression, Pattern, Spanned, Statement};
+use chumsky::span::SimpleSpan;
 
 use crate::Format;
 use crate::context::FormatterCtx;
@@ -17,17 +18,25 @@ impl Format for Spanned<Statement> {
             doc = Doc::with_leading_comments(comments, doc);
         }
 
-        // Add trailing comments (end-of-line)
-        if let Some(trailing) = ctx.get_trailing_comments(span) {
-            if let Some(first_trailing) = trailing.first() {
-                doc = doc.with_eol_comment(Some(&first_trailing.text));
-            }
-        }
+        // Add trailing comments
+        doc = with_trailing_comments(doc, span, ctx);
 
         doc
     }
 }
 
+/// Appends the comments that follow a node: those on its last line stay there, the others get a line each
+pub(super) fn with_trailing_comments(doc: Doc, span: SimpleSpan<usize>, ctx: &FormatterCtx) -> Doc {
+    let mut parts = vec![doc];
+    for comment in ctx.get_trailing_comments(span).unwrap_or_default() {
+        let same_line = comment.span.start < span.end
+            || !ctx.source[span.end..comment.span.start].contains('\n');
+        parts.push(if same_line { Doc::text(" ") } else { Doc::line() });
+        parts.push(Doc::comment(&comment.text));
+    }
+    Doc::concat(parts)
+}
+
 impl Format for Statement {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
         match self {
@@ -95,7 +104,7 @@ impl Format for Statement {
                 if !statements.is_empty() {
                     let stmts = statements
                         .iter()
-                        .map(|s| Doc::concat(vec![Doc::line(), s.value().format(ctx)]))
+                        .map(|s| Doc::concat(vec![Doc::line(), s.format(ctx)]))
                         .collect::<Vec<_>>();
 
                     parts.push(Doc::indent(ctx.cfg.indent_width, Doc::concat(stmts)));
diff --git a/crates/compiler/formatter/src/simple_comment_preserver.rs b/crates/compiler/formatter/src/simple_comment_preserver.rs
index bcbf092..2a3d3f9 100644
--- a/crates/compiler/formatter/src/simple_comment_preserver.rs
+++ b/crates/compiler/formatter/src/simple_comment_preserver.rs
@@ -21,7 +21,7 @@ pub fn format_with_comments(formatted_content: &str, original_content: &str) ->
             let trimmed = line.trim();
             !trimmed.is_empty() && !trimmed.starts_with("//")
         })
-        .unwrap_or(0);
+        .unwrap_or(usize::MAX);
 
     // Add leading comments
     for comment in &comments {
-- 
2.43.0


From 80477f44b4f56b31efe1db7aa7db99f73f0c4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:21 +0000
Subject: [PATCH 06/37] fix: the type expected of a call or cast no longer
 types the literals in its operands

---
 .../compiler/semantic/src/semantic_index.rs   | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 5426ee5..11a02c6 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1101,13 +1101,18 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                             callee: callee_expr_id,
                             index,
                         };
-                        self.visit_expr_with_origin(arg, arg_origin);
+                        // The type expected of the call says nothing about its arguments
+                        self.with_expected_type(None, |builder| {
+                            builder.visit_expr_with_origin(arg, arg_origin);
+                        });
                     }
                 } else {
                     // Fallback: visit arguments without special origin if callee not found
-                    for arg in args {
-                        self.visit_expr(arg);
-                    }
+                    self.with_expected_type(None, |builder| {
+                        for arg in args {
+                            builder.visit_expr(arg);
+                        }
+                    });
                 }
             }
             Expression::MemberAccess { object, .. } => {
@@ -1331,8 +1336,10 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 expr,
                 target_type: _,
             } => {
-                // Visit the expression being cast
-                self.visit_expr(expr);
+                // Visit the expression being cast: the type expected of the cast is not its own
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(expr);
+                });
             }
             Expression::Literal(_, _) | Expression::BooleanLiteral(_) => {
                 // Leaf nodes - no sub-expressions
-- 
2.43.0


From cdcff52e783c6ca40fb82ae43b031efb625d4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:00 +0000
Subject: [PATCH 07/37] fix: literals in a return take the return type of their
 own function

---
 crates/compiler/semantic/src/semantic_index.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 11a02c6..5ad4ad1 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -791,6 +791,8 @@ pub(crate) struct SemanticIndexBuilder<'db, 'sink> {
     loop_depth: usize,
     /// Current expected type hint for expression inference
     expected_type_hint: Option<Spanned<TypeExpr>>,
+    /// Return type of the function being visited
+    current_return_type: Option<Spanned<TypeExpr>>,
 
     /// Sink for collecting diagnostics while building the semantic index.
     diagnostic_sink: &'sink dyn DiagnosticSink,
@@ -823,6 +825,7 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
             scope_stack: Vec::new(),
             loop_depth: 0,
             expected_type_hint: None,
+            current_return_type: None,
             diagnostic_sink,
             semantic_syntax_checker: SemanticSyntaxChecker::default(),
         };
@@ -1607,7 +1610,10 @@ where
             }
             Statement::Return { value } => {
                 if let Some(expr) = value {
-                    self.visit_expr_with_origin(expr, Origin::ReturnExpr);
+                    let return_type = self.current_return_type.clone();
+                    self.with_expected_type(return_type, |builder| {
+                        builder.visit_expr_with_origin(expr, Origin::ReturnExpr);
+                    });
                 }
             }
             Statement::Expression(spanned) => {
@@ -1643,7 +1649,9 @@ where
         self.visit_parameters(&func_def.params);
 
         // Visit function body normally - return type hint will be applied only to return statements
+        self.current_return_type = Some(func_def.return_type.clone());
         self.visit_body(&func_def.body);
+        self.current_return_type = None;
 
         self.pop_scope();
     }
-- 
2.43.0


From 1a8e5e75c48c7ae7d0fe132aa399c7a2c0a70a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:00 +0000
Subject: [PATCH 08/37] fix: a loop that a break can leave no longer counts as
 returning on all paths

---
 .../semantic/src/validation/control_flow_validator.rs    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/control_flow_validator.rs b/crates/compiler/semantic/src/validation/control_flow_validator.rs
index b9c8828..9173b03 100644
--- a/crates/compiler/semantic/src/validation/control_flow_validator.rs
+++ b/crates/compiler/semantic/src/validation/control_flow_validator.rs
@@ -294,9 +294,10 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Loop statements can provide returns if they contain return statements
+                // Loop statements can provide returns if they contain return statements,
+                // unless a `break` lets control leave the loop without returning
                 // TODO: This could be improved to check if all break paths lead to returns
-                Self::statement_provides_return_value(body)
+                !Self::contains_break(body) && Self::statement_provides_return_value(body)
             }
             Statement::While { .. } => {
                 // While loops might not execute, so they can't guarantee a return
@@ -331,8 +332,8 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Check if the loop body has a hard return
-                Self::statement_guarantees_hard_return(body)
+                // Check if the loop body has a hard return that no `break` can skip
+                !Self::contains_break(body) && Self::statement_guarantees_hard_return(body)
             }
             Statement::While { .. } | Statement::For { .. } => {
                 // While and for loops might not execute, so they don't guarantee hard returns
-- 
2.43.0


From db336cf0017f3211dacccfe847c1ba4c6af38bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 09/37] fix: the type annotation of a const is resolved, and
 checked for top-level consts

---
 .../compiler/semantic/src/semantic_index.rs   |   6 +
 .../semantic/src/validation/type_validator.rs | 104 +++++++++++-------
 2 files changed, 71 insertions(+), 39 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 5ad4ad1..19ef2a5 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1580,6 +1580,9 @@ where
                 } else {
                     self.visit_expr(&const_def.value);
                 }
+                if let Some(ref ty) = const_def.ty {
+                    self.visit_type_expr(ty);
+                }
                 let value_expr_id = self
                     .index
                     .expression_id_by_span(const_def.value.span())
@@ -1703,6 +1706,9 @@ where
         } else {
             self.visit_expr(&const_def_inner.value);
         }
+        if let Some(ref ty) = const_def_inner.ty {
+            self.visit_type_expr(ty);
+        }
         let value_expr_id = self
             .index
             .expression_id_by_span(const_def_inner.value.span())
diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index b24c854..741be7c 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -16,13 +16,14 @@ use std::collections::HashSet;
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::ParsedModule;
 use cairo_m_compiler_parser::parser::{
-    BinaryOp, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
+    BinaryOp, ConstDef, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
     UnaryOp, parse_file,
 };
 use chumsky::span::SimpleSpan;
 
 use crate::builtins::{BuiltinFn, is_builtin_function_name};
 use crate::db::{Crate, SemanticDb};
+use crate::place::FileScopeId;
 use crate::semantic_index::{DefinitionId as SemDefinitionId, ExpressionInfo};
 use crate::type_resolution::{
     are_types_compatible, definition_semantic_type as sem_definition_type,
@@ -67,6 +68,18 @@ impl Validator for TypeValidator {
             self.check_expression_types(db, crate_id, file, index, expr_id, expr_info, sink);
         }
 
+        // Check the declared types of the constants of the module
+        if let Some(root_scope) = index.root_scope() {
+            for item in parsed_module.items() {
+                if let TopLevelItem::Const(const_spanned) = item {
+                    let const_def = const_spanned.value();
+                    self.check_const_type(
+                        db, crate_id, file, index, const_def, root_scope, sink,
+                    );
+                }
+            }
+        }
+
         // Check all function definitions for nested arrays in their signatures
         for item in parsed_module.items() {
             if let TopLevelItem::Function(func_spanned) = item {
@@ -1414,44 +1427,15 @@ impl TypeValidator {
                 let _expr_id = index.expression_id_by_span(expr.span());
             }
             Statement::Const(const_def) => {
-                // Validate that the const value type matches the declared type
-                if let Some(ref type_ast) = const_def.ty {
-                    if let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span())
-                    {
-                        // Get the declared type
-                        let declared_type = resolve_ast_type(
-                            db,
-                            crate_id,
-                            file,
-                            type_ast.clone(),
-                            index.scope_for_span(stmt.span()).unwrap(),
-                        );
-
-                        // Get the actual value type
-                        let value_type = expression_semantic_type(
-                            db,
-                            crate_id,
-                            file,
-                            value_expr_id,
-                            Some(declared_type),
-                        );
-
-                        // Check compatibility
-                        if !are_types_compatible(db, value_type, declared_type) {
-                            sink.push(
-                                Diagnostic::error(
-                                    DiagnosticCode::TypeMismatch,
-                                    format!(
-                                        "Type mismatch in const declaration: expected `{}`, got `{}`",
-                                        declared_type.data(db).display_name(db),
-                                        value_type.data(db).display_name(db)
-                                    ),
-                                )
-                                .with_location(file.file_path(db).to_string(), const_def.value.span()),
-                            );
-                        }
-                    }
-                }
+                self.check_const_type(
+                    db,
+                    crate_id,
+                    file,
+                    index,
+                    const_def,
+                    index.scope_for_span(stmt.span()).unwrap(),
+                    sink,
+                );
             }
             Statement::Loop { body } => {
                 self.check_statement_type(db, crate_id, file, index, function_def, body, sink);
@@ -1550,6 +1534,48 @@ impl TypeValidator {
         }
     }
 
+    /// Check that the value of a const matches its declared type
+    #[allow(clippy::too_many_arguments)]
+    fn check_const_type(
+        &self,
+        db: &dyn SemanticDb,
+        crate_id: Crate,
+        file: File,
+        index: &SemanticIndex,
+        const_def: &ConstDef,
+        scope_id: FileScopeId,
+        sink: &dyn DiagnosticSink,
+    ) {
+        let Some(ref type_ast) = const_def.ty else {
+            return;
+        };
+        let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span()) else {
+            return;
+        };
+
+        // Get the declared type
+        let declared_type = resolve_ast_type(db, crate_id, file, type_ast.clone(), scope_id);
+
+        // Get the actual value type
+        let value_type =
+            expression_semantic_type(db, crate_id, file, value_expr_id, Some(declared_type));
+
+        // Check compatibility
+        if !are_types_compatible(db, value_type, declared_type) {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::TypeMismatch,
+                    format!(
+                        "Type mismatch in const declaration: expected `{}`, got `{}`",
+                        declared_type.data(db).display_name(db),
+                        value_type.data(db).display_name(db)
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), const_def.value.span()),
+            );
+        }
+    }
+
     /// Check types for let statements
     #[allow(clippy::too_many_arguments)]
     fn check_let_statement_types(
-- 
2.43.0


From 5c8f29ed6def18f56ea28813ff4ef56d8edb4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 10/37] fix: assert takes exactly one argument

---
 .../semantic/src/validation/type_validator.rs    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 741be7c..f624bdb 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -175,12 +175,24 @@ impl TypeValidator {
         crate_id: Crate,
         file: File,
         index: &SemanticIndex,
-        _callee: &Spanned<Expression>,
+        callee: &Spanned<Expression>,
         args: &[Spanned<Expression>],
         sink: &dyn DiagnosticSink,
     ) {
-        // Only validate that the inner expression (if provided) evaluates to a boolean.
+        // Only validate that there is a single argument, which evaluates to a boolean.
         // Delegate all other typing rules to the general validators.
+        if args.len() != 1 {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::InvalidFunctionCall,
+                    format!(
+                        "Function expects 1 argument(s), but {} were provided",
+                        args.len()
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), callee.span()),
+            );
+        }
         if let Some(cond) = args.first() {
             if let Some(cond_expr_id) = index.expression_id_by_span(cond.span()) {
                 let cond_type = expression_semantic_type(db, crate_id, file, cond_expr_id, None);
-- 
2.43.0


From 5a46be47e571294ef2c2831f443e259a67c5569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 11/37] fix: a struct literal cannot give a field twice

---
 .../semantic/src/validation/type_validator.rs  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index f624bdb..8d60adc 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -1101,6 +1101,24 @@ impl TypeValidator {
             .map(|(field_name, _)| field_name.value().clone())
             .collect();
 
+        // Check for fields that are given more than once
+        let mut seen_fields = HashSet::new();
+        for (field_name, _field_value) in fields {
+            if !seen_fields.insert(field_name.value()) {
+                sink.push(
+                    Diagnostic::error(
+                        DiagnosticCode::InvalidStructLiteral,
+                        format!(
+                            "Field `{}` is specified more than once in struct literal for `{}`",
+                            field_name.value(),
+                            struct_type.name(db)
+                        ),
+                    )
+                    .with_location(file.file_path(db).to_string(), field_name.span()),
+                );
+            }
+        }
+
         // Check for missing fields
         for (field_name, _field_type) in &struct_fields {
             if !provided_fields.contains(field_name) {
-- 
2.43.0


From c0e3a7988962b6580edad3be333aef2d6e6b5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 12/37] fix: nested tuple patterns are checked at every depth

---
 .../semantic/src/validation/type_validator.rs | 91 +++++++++++++------
 1 file changed, 61 insertions(+), 30 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 8d60adc..7ee3528 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -1674,36 +1674,14 @@ impl TypeValidator {
                         // Recursively check nested patterns
                         for (pattern, elem_type) in patterns.iter().zip(element_types.iter()) {
                             if let Pattern::Tuple(nested_patterns) = pattern {
-                                // Check nested tuple pattern matches nested tuple type
-                                match elem_type.data(db) {
-                                    TypeData::Tuple(nested_types) => {
-                                        if nested_types.len() != nested_patterns.len() {
-                                            sink.push(
-                                                Diagnostic::error(
-                                                    DiagnosticCode::TypeMismatch,
-                                                    format!(
-                                                        "Nested tuple pattern has {} elements but value has {} elements",
-                                                        nested_patterns.len(),
-                                                        nested_types.len()
-                                                    ),
-                                                )
-                                                .with_location(file.file_path(db).to_string(), value.span()),
-                                            );
-                                        }
-                                    }
-                                    _ => {
-                                        sink.push(
-                                            Diagnostic::error(
-                                                DiagnosticCode::TypeMismatch,
-                                                format!(
-                                                    "Expected tuple type for nested tuple pattern, found `{}`",
-                                                    elem_type.data(db).display_name(db)
-                                                ),
-                                            )
-                                            .with_location(file.file_path(db).to_string(), value.span()),
-                                        );
-                                    }
-                                }
+                                Self::check_nested_tuple_pattern(
+                                    db,
+                                    file,
+                                    nested_patterns,
+                                    *elem_type,
+                                    value.span(),
+                                    sink,
+                                );
                             }
                         }
 
@@ -1747,6 +1725,59 @@ impl TypeValidator {
         }
     }
 
+    /// Check that a nested tuple pattern matches the type of the tuple element it destructures
+    fn check_nested_tuple_pattern(
+        db: &dyn SemanticDb,
+        file: File,
+        patterns: &[Pattern],
+        value_type: TypeId<'_>,
+        value_span: SimpleSpan<usize>,
+        sink: &dyn DiagnosticSink,
+    ) {
+        match value_type.data(db) {
+            TypeData::Tuple(element_types) => {
+                if element_types.len() != patterns.len() {
+                    sink.push(
+                        Diagnostic::error(
+                            DiagnosticCode::TypeMismatch,
+                            format!(
+                                "Nested tuple pattern has {} elements but value has {} elements",
+                                patterns.len(),
+                                element_types.len()
+                            ),
+                        )
+                        .with_location(file.file_path(db).to_string(), value_span),
+                    );
+                }
+
+                for (pattern, elem_type) in patterns.iter().zip(element_types.iter()) {
+                    if let Pattern::Tuple(nested_patterns) = pattern {
+                        Self::check_nested_tuple_pattern(
+                            db,
+                            file,
+                            nested_patterns,
+                            *elem_type,
+                            value_span,
+                            sink,
+                        );
+                    }
+                }
+            }
+            _ => {
+                sink.push(
+                    Diagnostic::error(
+                        DiagnosticCode::TypeMismatch,
+                        format!(
+                            "Expected tuple type for nested tuple pattern, found `{}`",
+                            value_type.data(db).display_name(db)
+                        ),
+                    )
+                    .with_location(file.file_path(db).to_string(), value_span),
+                );
+            }
+        }
+    }
+
     /// Check types for assignment statements
     fn check_assignment_types(
         &self,
-- 
2.43.0


From 49bd1b22a575ad4e3431bc5c0bb9706d4e0fdca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 13/37] fix: patterns and literal suffixes are checked in for
 loops too

---
 .../semantic/src/validation/structural_validator.rs       | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/structural_validator.rs b/crates/compiler/semantic/src/validation/structural_validator.rs
index c87a0bf..79c9405 100644
--- a/crates/compiler/semantic/src/validation/structural_validator.rs
+++ b/crates/compiler/semantic/src/validation/structural_validator.rs
@@ -143,7 +143,9 @@ impl StructuralValidator {
                         );
                     }
                 }
-                Statement::Loop { body } | Statement::While { body, .. } => {
+                Statement::Loop { body }
+                | Statement::While { body, .. }
+                | Statement::For { body, .. } => {
                     self.check_patterns_in_statements(&[(**body).clone()], file_path, sink);
                 }
                 _ => {}
@@ -200,7 +202,9 @@ impl StructuralValidator {
                         );
                     }
                 }
-                Statement::Loop { body } | Statement::While { body, .. } => {
+                Statement::Loop { body }
+                | Statement::While { body, .. }
+                | Statement::For { body, .. } => {
                     self.check_type_cohesion_in_statements(&[(**body).clone()], file_path, sink);
                 }
                 _ => {}
-- 
2.43.0


From 045c3dfc75ff54ca1015960df80f5c5669505b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:24 +0000
Subject: [PATCH 14/37] fix: the negation of a variable is not a negative
 literal

---
 .../src/validation/literal_validator.rs         | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index 40cf214..c68360d 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -124,6 +124,15 @@ impl Validator for LiteralValidator {
 }
 
 impl LiteralValidator {
+    /// Check if an expression is a literal, possibly between parentheses
+    fn is_literal(expr: &Expression) -> bool {
+        match expr {
+            Expression::Literal(..) => true,
+            Expression::Parenthesized(inner) => Self::is_literal(inner.value()),
+            _ => false,
+        }
+    }
+
     /// Check if a literal value fits within u32 range
     fn check_u32_literal(
         &self,
@@ -156,8 +165,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr: operand,
+            } if Self::is_literal(operand.value()) => {
                 // Negative values are not allowed for u32
                 sink.push(
                     Diagnostic::error(
@@ -212,8 +221,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr: operand,
+            } if Self::is_literal(operand.value()) => {
                 // Negative values are not allowed for felt in Cairo-M (uses M31 field)
                 sink.push(
                     Diagnostic::error(
-- 
2.43.0


From e10c28794beb258d0be6ae07cdd49e96cf58f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:30 +0000
Subject: [PATCH 15/37] fix: literals out of the range of their suffix, or of
 every numeric type, are rejected everywhere

---
 .../src/validation/literal_validator.rs       | 125 ++++++++++++------
 1 file changed, 82 insertions(+), 43 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index c68360d..e100d1d 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -9,7 +9,7 @@ use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::parser::{Expression, NamedType, UnaryOp};
 
 use crate::db::{Crate, SemanticDb};
-use crate::type_resolution::definition_semantic_type;
+use crate::type_resolution::{definition_semantic_type, expression_semantic_type};
 use crate::types::TypeData;
 use crate::validation::Validator;
 use crate::{DefinitionKind, File, SemanticIndex};
@@ -33,6 +33,22 @@ impl Validator for LiteralValidator {
         index: &SemanticIndex,
         sink: &dyn DiagnosticSink,
     ) {
+        // Check the literals whose range does not depend on where they are used: those with
+        // a suffix, and those that no numeric type can hold
+        for (expr_id, expr_info) in index.all_expressions() {
+            if let Expression::Literal(value, suffix) = &expr_info.ast_node
+                && (suffix.is_some() || *value > u32::MAX as u64)
+            {
+                let literal_type = expression_semantic_type(db, crate_id, file, expr_id, None);
+                let span = expr_info.ast_span;
+                match literal_type.data(db) {
+                    TypeData::U32 => self.check_u32_range(db, *value, span, file, sink),
+                    TypeData::Felt => self.check_felt_range(db, *value, span, file, sink),
+                    _ => {}
+                }
+            }
+        }
+
         // Check all let/const definitions with explicit u32 or felt type
         for (def_idx, definition) in index.all_definitions() {
             match &definition.kind {
@@ -124,6 +140,67 @@ impl Validator for LiteralValidator {
 }
 
 impl LiteralValidator {
+    /// Check if a value fits within u32 range
+    fn check_u32_range(
+        &self,
+        db: &dyn SemanticDb,
+        value: u64,
+        span: chumsky::span::SimpleSpan,
+        file: File,
+        sink: &dyn DiagnosticSink,
+    ) {
+        if value > u32::MAX as u64 {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::TypeMismatch,
+                    format!(
+                        "literal value {} is out of range for type u32 (0-{})",
+                        value,
+                        u32::MAX
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), span)
+                .with_related_span(
+                    file.file_path(db).to_string(),
+                    span,
+                    format!("u32 can only hold values from 0 to {}", u32::MAX),
+                ),
+            );
+        }
+    }
+
+    /// Check if a value fits within felt range
+    fn check_felt_range(
+        &self,
+        db: &dyn SemanticDb,
+        value: u64,
+        span: chumsky::span::SimpleSpan,
+        file: File,
+        sink: &dyn DiagnosticSink,
+    ) {
+        if value > FELT_MAX {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::TypeMismatch,
+                    format!(
+                        "literal value {} is out of range for type felt (0-{})",
+                        value,
+                        FELT_MAX
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), span)
+                .with_related_span(
+                    file.file_path(db).to_string(),
+                    span,
+                    format!(
+                        "felt can only hold values from 0 to {} (2^31 - 1)",
+                        FELT_MAX
+                    ),
+                ),
+            );
+        }
+    }
+
     /// Check if an expression is a literal, possibly between parentheses
     fn is_literal(expr: &Expression) -> bool {
         match expr {
@@ -133,7 +210,7 @@ impl LiteralValidator {
         }
     }
 
-    /// Check if a literal value fits within u32 range
+    /// Check that a u32 is not given as a negative literal
     fn check_u32_literal(
         &self,
         db: &dyn SemanticDb,
@@ -143,26 +220,6 @@ impl LiteralValidator {
         sink: &dyn DiagnosticSink,
     ) {
         match expr {
-            Expression::Literal(value, _) => {
-                if { *value } > u32::MAX as u64 {
-                    sink.push(
-                        Diagnostic::error(
-                            DiagnosticCode::TypeMismatch,
-                            format!(
-                                "literal value {} is out of range for type u32 (0-{})",
-                                value,
-                                u32::MAX
-                            ),
-                        )
-                        .with_location(file.file_path(db).to_string(), span)
-                        .with_related_span(
-                            file.file_path(db).to_string(),
-                            span,
-                            format!("u32 can only hold values from 0 to {}", u32::MAX),
-                        ),
-                    );
-                }
-            }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
                 expr: operand,
@@ -197,27 +254,9 @@ impl LiteralValidator {
         sink: &dyn DiagnosticSink,
     ) {
         match expr {
-            Expression::Literal(value, _) => {
-                if *value > FELT_MAX {
-                    sink.push(
-                        Diagnostic::error(
-                            DiagnosticCode::TypeMismatch,
-                            format!(
-                                "literal value {} is out of range for type felt (0-{})",
-                                value, FELT_MAX
-                            ),
-                        )
-                        .with_location(file.file_path(db).to_string(), span)
-                        .with_related_span(
-                            file.file_path(db).to_string(),
-                            span,
-                            format!(
-                                "felt can only hold values from 0 to {} (2^31 - 1)",
-                                FELT_MAX
-                            ),
-                        ),
-                    );
-                }
+            // Larger literals and literals with a suffix are checked wherever they are
+            Expression::Literal(value, None) if *value <= u32::MAX as u64 => {
+                self.check_felt_range(db, *value, span, file, sink);
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-- 
2.43.0


From 2fef78c611fa9d0de2ed5b44fecd61100f3c7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:09 +0000
Subject: [PATCH 16/37] fix: a const cannot be used in its own initializer

---
 .../compiler/semantic/src/semantic_index.rs   | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 19ef2a5..221e7c2 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -441,23 +441,22 @@ impl SemanticIndex {
                             continue;
                         }
 
-                        // Skip if usage falls inside this let initializer
-                        let skip =
-                            if let crate::definition::DefinitionKind::Let(let_ref) = &def.kind {
-                                if let Some(init_expr_id) = let_ref.value_expr_id {
-                                    if let Some(init_expr) = self.expression(init_expr_id) {
-                                        let init_span = init_expr.ast_span;
-                                        position.start >= init_span.start
-                                            && position.end <= init_span.end
-                                    } else {
-                                        false
-                                    }
-                                } else {
-                                    false
-                                }
-                            } else {
-                                false
-                            };
+                        // Skip if usage falls inside this let or const initializer
+                        let init_expr_id = match &def.kind {
+                            crate::definition::DefinitionKind::Let(let_ref) => {
+                                let_ref.value_expr_id
+                            }
+                            crate::definition::DefinitionKind::Const(const_ref) => {
+                                const_ref.value_expr_id
+                            }
+                            _ => None,
+                        };
+                        let skip = init_expr_id
+                            .and_then(|init_expr_id| self.expression(init_expr_id))
+                            .is_some_and(|init_expr| {
+                                let init_span = init_expr.ast_span;
+                                position.start >= init_span.start && position.end <= init_span.end
+                            });
                         if skip {
                             continue;
                         }
-- 
2.43.0


From 5bfe88dbe17fd69423e175c6abc36f14288e2b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 17/37] fix: a wrong argument to an imported function is
 reported instead of panicking

---
 .../semantic/src/validation/type_validator.rs   | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 7ee3528..51b9e8b 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -619,15 +619,18 @@ impl TypeValidator {
                         );
 
                         if !are_types_compatible(db, arg_type, *param_type) {
-                            // Find the parameter's AST to get its span
+                            // Find the parameter's AST to get its span. Related spans are in
+                            // the file of the diagnostic: an imported function has none.
                             let func_def_id = signature_id.definition_id(db);
-                            let func_def = index.definition(func_def_id.id_in_file(db)).unwrap();
-                            let param_type_span =
-                                if let DefinitionKind::Function(func_ref) = &func_def.kind {
+                            let func_def = (func_def_id.file(db) == file)
+                                .then(|| index.definition(func_def_id.id_in_file(db)))
+                                .flatten();
+                            let param_type_span = match func_def.map(|def| &def.kind) {
+                                Some(DefinitionKind::Function(func_ref)) => {
                                     func_ref.params_ast.get(arg_idx).map(|p| p.1.span())
-                                } else {
-                                    None
-                                };
+                                }
+                                _ => None,
+                            };
 
                             let mut diag = Diagnostic::error(
                                 DiagnosticCode::TypeMismatch,
-- 
2.43.0


From 75bd59ae1d866119fa6c2cdb871047cd33c5d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:39 +0000
Subject: [PATCH 18/37] fix: only structs can be named as types, and values do
 not hide them

---
 .../compiler/semantic/src/semantic_index.rs   | 32 ++++++++-
 .../compiler/semantic/src/type_resolution.rs  |  2 +-
 .../semantic/src/validation/scope_check.rs    | 68 ++++++++++++++-----
 3 files changed, 82 insertions(+), 20 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 221e7c2..47cd061 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -103,6 +103,8 @@ pub struct TypeUsage {
     pub name: String,
     pub span: SimpleSpan<usize>,
     pub scope_id: FileScopeId,
+    /// Whether this is the name in a struct literal, and not in a type expression
+    pub is_struct_literal: bool,
 }
 
 /// Kind of condition in control flow statements
@@ -612,6 +614,32 @@ impl SemanticIndex {
         None
     }
 
+    /// Like [`Self::latest_definition_index_by_name_in_chain`], for the name of a type:
+    /// only structs, and imports, which may be of structs, can be named as types.
+    pub fn latest_type_definition_index_by_name_in_chain(
+        &self,
+        starting_scope: FileScopeId,
+        name: &str,
+    ) -> Option<DefinitionIndex> {
+        let mut current = Some(starting_scope);
+        while let Some(scope_id) = current {
+            let definitions = self.all_definition_indices_by_name(scope_id, name);
+            let type_definition = definitions.into_iter().rev().find(|def_idx| {
+                self.definition(*def_idx).is_some_and(|def| {
+                    matches!(
+                        def.kind,
+                        DefinitionKind::Struct(_) | DefinitionKind::Use(_)
+                    )
+                })
+            });
+            if type_definition.is_some() {
+                return type_definition;
+            }
+            current = self.scope(scope_id).and_then(|s| s.parent);
+        }
+        None
+    }
+
     /// Find definition by ID
     pub fn definition(&self, id: DefinitionIndex) -> Option<&Definition> {
         self.definitions.get(id)
@@ -1131,6 +1159,7 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                     name: name.value().to_string(),
                     span: name.span(),
                     scope_id: self.current_scope(),
+                    is_struct_literal: true,
                 };
                 let usage_index = self.index.add_type_usage(type_usage);
 
@@ -1732,13 +1761,14 @@ where
                         name: name.clone(),
                         span: named_type_spanned.span(),
                         scope_id: current_scope,
+                        is_struct_literal: false,
                     };
 
                     let usage_index = self.index.add_type_usage(usage);
 
                     if let Some(def_idx) = self
                         .index
-                        .latest_definition_index_by_name_in_chain(current_scope, name)
+                        .latest_type_definition_index_by_name_in_chain(current_scope, name)
                     {
                         // Mark the referenced type's definition as used
                         self.index.mark_definition_used(def_idx);
diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 1290820..094ef27 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -57,7 +57,7 @@ pub fn resolve_ast_type<'db>(
                 NamedType::Custom(name_str) => {
                     // Try to resolve as a struct type using scope-chain helper (supports forward refs)
                     semantic_index
-                        .latest_definition_index_by_name_in_chain(context_scope_id, name_str)
+                        .latest_type_definition_index_by_name_in_chain(context_scope_id, name_str)
                         .map(|def_idx| {
                             let def_id = DefinitionId::new(db, file, def_idx);
                             let def_type = definition_semantic_type(db, crate_id, def_id);
diff --git a/crates/compiler/semantic/src/validation/scope_check.rs b/crates/compiler/semantic/src/validation/scope_check.rs
index 036bd9e..936a568 100644
--- a/crates/compiler/semantic/src/validation/scope_check.rs
+++ b/crates/compiler/semantic/src/validation/scope_check.rs
@@ -25,9 +25,9 @@ use std::collections::HashSet;
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 
 use crate::builtins::is_builtin_function_name;
-use crate::db::{Crate, SemanticDb};
+use crate::db::{Crate, SemanticDb, module_semantic_index};
 use crate::validation::Validator;
-use crate::{File, SemanticIndex};
+use crate::{DefinitionKind, File, SemanticIndex};
 
 /// Validator for scope-related semantic rules
 ///
@@ -190,25 +190,57 @@ impl ScopeValidator {
 
         // Check each type usage to see if it was resolved to a definition
         for (usage_index, usage) in index.type_usages().iter().enumerate() {
-            if !index.is_type_usage_resolved(usage_index) {
+            let is_declared = if usage.is_struct_literal {
                 // If not resolved, try to resolve with imports using the centralized method
-                if index
-                    .resolve_name_with_imports_at_position(
-                        db,
-                        crate_id,
-                        file,
-                        &usage.name,
-                        usage.scope_id,
-                        usage.span,
-                    )
-                    .is_none()
+                index.is_type_usage_resolved(usage_index)
+                    || index
+                        .resolve_name_with_imports_at_position(
+                            db,
+                            crate_id,
+                            file,
+                            &usage.name,
+                            usage.scope_id,
+                            usage.span,
+                        )
+                        .is_some()
+            } else {
+                match index
+                    .latest_type_definition_index_by_name_in_chain(usage.scope_id, &usage.name)
+                    .and_then(|def_idx| index.definition(def_idx))
+                    .map(|def| &def.kind)
                 {
-                    sink.push(Diagnostic::undeclared_type(
-                        file.file_path(db).to_string(),
-                        &usage.name,
-                        usage.span,
-                    ));
+                    // The imported item has to be a type as well. If it does not exist, the
+                    // import itself is reported.
+                    Some(DefinitionKind::Use(use_ref)) => {
+                        let module_name = use_ref.imported_module.value().clone();
+                        let imported_index =
+                            module_semantic_index(db, crate_id, module_name).ok();
+                        imported_index.is_none_or(|imported_index| {
+                            imported_index
+                                .root_scope()
+                                .and_then(|root| {
+                                    imported_index
+                                        .latest_definition_index_by_name(root, &usage.name)
+                                })
+                                .and_then(|def_idx| imported_index.definition(def_idx))
+                                .is_none_or(|def| {
+                                    matches!(
+                                        def.kind,
+                                        DefinitionKind::Struct(_) | DefinitionKind::Use(_)
+                                    )
+                                })
+                        })
+                    }
+                    Some(_) => true,
+                    None => false,
                 }
+            };
+            if !is_declared {
+                sink.push(Diagnostic::undeclared_type(
+                    file.file_path(db).to_string(),
+                    &usage.name,
+                    usage.span,
+                ));
             }
         }
     }
-- 
2.43.0


From 60ef191075a2d856d730a2726537f86dbfbd7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:39 +0000
Subject: [PATCH 19/37] fix: errors of a module are not listed twice

---
 crates/compiler/semantic/src/db.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 9405b30..489166a 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -489,9 +489,8 @@ pub fn module_semantic_diagnostics(
         };
         let registry = create_default_registry();
 
-        let mut validate_diags = registry.validate_all(db, crate_id, *file, &index);
-        validate_diags.extend(index.semantic_syntax_errors);
-        validate_diags
+        // This includes the errors found while building the index
+        registry.validate_all(db, crate_id, *file, &index)
     } else {
         DiagnosticCollection::default()
     }
@@ -505,12 +504,11 @@ pub fn module_all_diagnostics(
     module_name: String,
 ) -> DiagnosticCollection {
     let parse_diag = module_parse_diagnostics(db, crate_id, module_name.clone());
-    let semantic_diag = module_semantic_diagnostics(db, crate_id, module_name);
-
-    let mut collection = DiagnosticCollection::default();
-    collection.extend(parse_diag.all().iter().cloned());
-    collection.extend(semantic_diag.all().iter().cloned());
-    collection
+    if !parse_diag.is_empty() {
+        // There is no semantic analysis of a module with parse errors
+        return parse_diag;
+    }
+    module_semantic_diagnostics(db, crate_id, module_name)
 }
 
 /// Check if a specific module has changed since a given revision
-- 
2.43.0


From 1749f2e9bbac824c52d69e58f3022a6839f19d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:46 +0000
Subject: [PATCH 20/37] fix: diagnostics of a module in an import cycle are
 reported instead of panicking

---
 crates/compiler/semantic/src/db.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 489166a..1780917 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -311,6 +311,13 @@ fn detect_import_cycle(graph: &HashMap<String, Vec<String>>) -> Option<Vec<Strin
     cycle
 }
 
+fn cyclic_import_diagnostic(cycle: &[String]) -> Diagnostic {
+    Diagnostic::error(
+        DiagnosticCode::SyntaxError,
+        format!("Cyclic import: {}", cycle.join(" -> ")),
+    )
+}
+
 fn topological_sort(graph: &HashMap<String, Vec<String>>) -> Vec<String> {
     let mut visited: HashMap<String, bool> = HashMap::new();
     let mut topo: Vec<String> = Vec::new();
@@ -353,10 +360,7 @@ pub fn project_semantic_index(
 
     let mut coll = DiagnosticCollection::default();
     if let Some(cycle) = detect_import_cycle(&graph) {
-        coll.add(Diagnostic::error(
-            DiagnosticCode::SyntaxError,
-            format!("Cyclic import: {}", cycle.join(" -> ")),
-        ));
+        coll.add(cyclic_import_diagnostic(&cycle));
         return Err(coll);
     }
 
@@ -480,6 +484,14 @@ pub fn module_semantic_diagnostics(
     let mut semantic_diag = DiagnosticCollection::default();
 
     if let Some(file) = crate_id.modules(db).get(&module_name) {
+        // Modules that import each other cannot be indexed
+        if let Some(cycle) = detect_import_cycle(&project_import_graph(db, crate_id)) {
+            let mut diagnostic = cyclic_import_diagnostic(&cycle);
+            diagnostic.file_path = file.file_path(db).to_string();
+            semantic_diag.add(diagnostic);
+            return semantic_diag;
+        }
+
         let index = match module_semantic_index(db, crate_id, module_name.clone()) {
             Ok(index) => index,
             Err(diagnostic) => {
-- 
2.43.0


From 59f4b468c1fbf900b591bf403001887d35362b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:10 +0000
Subject: [PATCH 21/37] fix: cached diagnostics of another crate or of removed
 modules are not reported

---
 .../compiler/semantic/src/delta_diagnostics.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/compiler/semantic/src/delta_diagnostics.rs b/crates/compiler/semantic/src/delta_diagnostics.rs
index 78d85ef..8883e03 100644
--- a/crates/compiler/semantic/src/delta_diagnostics.rs
+++ b/crates/compiler/semantic/src/delta_diagnostics.rs
@@ -39,6 +39,8 @@ pub struct DeltaDiagnosticsTracker {
     cached_diagnostics: HashMap<String, DiagnosticCollection>,
     /// The overall project revision at last computation
     last_project_revision: Option<salsa::Revision>,
+    /// The crate of the last computation, which the cached diagnostics belong to
+    last_crate: Option<Crate>,
 }
 
 impl DeltaDiagnosticsTracker {
@@ -48,6 +50,7 @@ impl DeltaDiagnosticsTracker {
             module_revisions: HashMap::new(),
             cached_diagnostics: HashMap::new(),
             last_project_revision: None,
+            last_crate: None,
         }
     }
 
@@ -59,6 +62,14 @@ impl DeltaDiagnosticsTracker {
     ) -> DiagnosticCollection {
         let current_revision = db.zalsa().current_revision();
 
+        // Nothing is known yet about the modules of another crate
+        if self.last_crate != Some(crate_id) {
+            self.module_revisions.clear();
+            self.cached_diagnostics.clear();
+            self.last_project_revision = None;
+            self.last_crate = Some(crate_id);
+        }
+
         // Check if this is the first computation or if anything has changed
         let needs_full_recompute = self.last_project_revision.is_none()
             || self.last_project_revision.unwrap() < current_revision;
@@ -69,6 +80,13 @@ impl DeltaDiagnosticsTracker {
         }
 
         let modules = crate_id.modules(db);
+
+        // Forget the modules that are no longer part of the crate
+        self.module_revisions
+            .retain(|module_name, _| modules.contains_key(module_name));
+        self.cached_diagnostics
+            .retain(|module_name, _| modules.contains_key(module_name));
+
         let mut total_diagnostics = DiagnosticCollection::default();
 
         for (module_name, _file) in modules.iter() {
-- 
2.43.0


From 013b1339249f6f1fd38ecb8491098f48929ef447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:15 +0000
Subject: [PATCH 22/37] fix: a project contains the files of its source folder

---
 crates/compiler/cairo-m-project/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index e808589..ad1a841 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -28,7 +28,7 @@ impl Project {
 
     /// Check if a path belongs to this project
     pub fn contains_path(&self, path: &Path) -> bool {
-        path.starts_with(&self.root_directory)
+        path.starts_with(self.source_directory())
     }
 
     /// Get all source files in the project
-- 
2.43.0


From 56ac3437c6b007a9c99a39877b7aba46fefb8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 23/37] fix: listing the source of a standalone file does not
 panic when its folder has no name

---
 crates/compiler/cairo-m-project/src/model.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index ad1a841..43849ab 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -34,11 +34,10 @@ impl Project {
     /// Get all source files in the project
     pub fn source_files(&self) -> anyhow::Result<Vec<PathBuf>> {
         let src_dir = self.root_directory.parent().unwrap();
-        let src_dir_name = src_dir.file_name().unwrap().to_str().unwrap();
 
         // TODO: refactor with a stronger mechanism regarding standalone file detection
         //1. If it's not an `src` dir we're in the standalone file case and there's only one file, the crate root.
-        if src_dir_name != "src" {
+        if src_dir.file_name() != Some(std::ffi::OsStr::new("src")) {
             tracing::info!(
                 "Compiling standalone file: {}",
                 self.root_directory.display()
-- 
2.43.0


From 6f76ad49ec1732c5378ac8afd1acb3fe7ba59e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 24/37] fix: a folder whose name ends in .cm is not taken for a
 source file

---
 crates/compiler/cairo-m-project/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index 43849ab..3d929da 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -56,7 +56,7 @@ impl Project {
             let entry = entry?;
             let path = entry.path();
 
-            if path.extension().and_then(|s| s.to_str()) == Some("cm") {
+            if path.is_file() && path.extension().and_then(|s| s.to_str()) == Some("cm") {
                 files.push(path.to_owned());
             }
         }
-- 
2.43.0


From e89df591a4cf5b5efb96f7388dea809a3a4710a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 25/37] fix: a standalone file whose name holds a quote or a
 backslash is discovered instead of panicking

---
 crates/compiler/cairo-m-project/src/discovery.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index 95dea31..d0840a7 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -57,14 +57,11 @@ fn setup_as_standalone_file(file_path: &Path) -> Result<Project> {
         .unwrap_or("main");
 
     // For standalone files, the entry point is just the file name
-    let manifest_content = format!(
-        r#"name = "{file_stem}"
-version = "0.1.0"
-entry_point = "{file_stem}.cm"
-"#
-    );
-    let project_manifest =
-        ProjectManifest::from_file_content(&manifest_content).expect("Failed to parse manifest");
+    let project_manifest = ProjectManifest {
+        name: file_stem.to_string(),
+        version: "0.1.0".to_string(),
+        entry_point: format!("{file_stem}.cm"),
+    };
 
     let project = Project {
         config: project_manifest,
-- 
2.43.0


From 36758251351ea0b2a938f81520407a5abd939ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 26/37] fix: the manifest of a relative path is searched for
 above the current directory

---
 crates/compiler/cairo-m-project/src/discovery.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index d0840a7..b4b4bf7 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -119,6 +119,11 @@ pub fn discover_workspace(workspace_root: &Path) -> Result<Workspace> {
 
 /// Find the project manifest (cairom.toml) starting from a given path
 pub fn find_project_manifest(start_path: &Path) -> Result<Option<PathBuf>> {
+    // A relative path has no parents above the current directory
+    let absolute_path =
+        std::path::absolute(start_path).unwrap_or_else(|_| start_path.to_path_buf());
+    let start_path = absolute_path.as_path();
+
     let start_dir = if start_path.is_file() {
         start_path
             .parent()
-- 
2.43.0


From bd925b6867414d77a7efdfd3afd9ed93f5373412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:43 +0000
Subject: [PATCH 27/37] fix: the arithmetic simplification takes 0 - x and 1 /
 x for x

---
 crates/compiler/mir/src/passes/arithmetic_simplify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/passes/arithmetic_simplify.rs b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
index 5e35244..8d1a793 100644
--- a/crates/compiler/mir/src/passes/arithmetic_simplify.rs
+++ b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
@@ -37,7 +37,12 @@ impl ArithmeticSimplify {
     ) -> Option<SimplificationResult> {
         // Check for identity values
         if let Some(identity) = self.evaluator.identity_value(op) {
-            if left == Value::Literal(identity) {
+            // Subtraction and division have a right identity only: 0 - x is not x, nor is 1 / x
+            let commutes = !matches!(
+                op,
+                BinaryOp::Sub | BinaryOp::U32Sub | BinaryOp::Div | BinaryOp::U32Div
+            );
+            if commutes && left == Value::Literal(identity) {
                 // identity op x → x
                 return Some(SimplificationResult::Assign(right));
             }
-- 
2.43.0


From 1d0225c3aefc10455d3c4361d73c3f040e0af80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 28/37] fix: an unsuffixed literal left of a u32 operand makes
 the operation one on felts

---
 crates/compiler/mir/src/lowering/expr.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/compiler/mir/src/lowering/expr.rs b/crates/compiler/mir/src/lowering/expr.rs
index 120d087..c68194d 100644
--- a/crates/compiler/mir/src/lowering/expr.rs
+++ b/crates/compiler/mir/src/lowering/expr.rs
@@ -259,19 +259,26 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
 
         // Register binary op result as a Value
 
-        // Get the type of the left operand to determine the correct binary operation
-        let left_expr_id = self.expr_id(left.span())?;
-
-        let left_type = expression_semantic_type(
+        // Get the type of the operands to determine the correct binary operation. An unsuffixed
+        // literal left of a commutative operator takes the type of the right operand.
+        let left_takes_right_type = matches!(
+            op,
+            BinaryOp::Add | BinaryOp::Mul | BinaryOp::Eq | BinaryOp::Neq
+        ) && matches!(left.value(), Expression::Literal(_, None))
+            && !matches!(right.value(), Expression::Literal(_, None));
+        let operand = if left_takes_right_type { right } else { left };
+        let operand_expr_id = self.expr_id(operand.span())?;
+
+        let operand_type = expression_semantic_type(
             self.ctx.db,
             self.ctx.crate_id,
             self.ctx.file,
-            left_expr_id,
+            operand_expr_id,
             None,
         );
-        let left_type_data = left_type.data(self.ctx.db);
+        let operand_type_data = operand_type.data(self.ctx.db);
 
-        let typed_op = crate::BinaryOp::from_parser(op, &left_type_data)?;
+        let typed_op = crate::BinaryOp::from_parser(op, &operand_type_data)?;
         self.instr()
             .binary_op_to(typed_op, dest, lhs_value, rhs_value);
         Ok(LoweredExpr::new(Value::operand(dest)))
-- 
2.43.0


From 82d83e8eb2f49e109263ff224be98ae917fd2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 29/37] fix: a variable stays bound to a trivial phi that was
 removed

---
 crates/compiler/mir/src/function.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index 46b0f94..d83422f 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -531,8 +531,12 @@ impl MirFunction {
         let preds = self.basic_blocks[phi_block].preds.clone();
         let mut block_value_pairs = Vec::new();
 
+        // Recursively read variable from all predecessors first: reading one of them may remove a
+        // trivial phi that an earlier one resolved to
+        for &pred in &preds {
+            self.read_variable(var, pred);
+        }
         for &pred in &preds {
-            // Recursively read variable from predecessor
             let operand = self.read_variable(var, pred);
             block_value_pairs.push((pred, operand));
         }
@@ -609,8 +613,14 @@ impl MirFunction {
             return phi; // Only self-references, keep phi
         };
 
-        // Phi is trivial - replace all uses with the unique operand
+        // Phi is trivial - replace all uses with the unique operand, also where it is the current
+        // definition of a variable in any block
         self.replace_value_uses(phi, replacement);
+        for value in self.current_def.values_mut() {
+            if *value == phi {
+                *value = replacement;
+            }
+        }
 
         // Remove phi instruction
         self.remove_phi_instruction(phi_block, phi);
-- 
2.43.0


From a7d9aca7b93a5f9d8a648d22554fb648e494d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:56 +0000
Subject: [PATCH 30/37] fix: loops that exchange variables neither compile nor
 exchange them

---
 .../mir/src/passes/phi_elimination.rs         | 123 ++++--------------
 1 file changed, 24 insertions(+), 99 deletions(-)

diff --git a/crates/compiler/mir/src/passes/phi_elimination.rs b/crates/compiler/mir/src/passes/phi_elimination.rs
index bde659d..2b0796f 100644
--- a/crates/compiler/mir/src/passes/phi_elimination.rs
+++ b/crates/compiler/mir/src/passes/phi_elimination.rs
@@ -119,24 +119,16 @@ impl PhiElimination {
     }
 
     /// Build a dependency graph for parallel copies
+    ///
+    /// An edge leads from a copy to the copy that overwrites its source, which has to come later.
     fn build_dependency_graph(&self, copies: &[Instruction]) -> FxHashMap<ValueId, Vec<ValueId>> {
         let mut graph = FxHashMap::default();
 
-        // Build a map of destination -> source for all copies
-        let mut dest_to_source: FxHashMap<ValueId, ValueId> = FxHashMap::default();
-        for copy in copies {
-            if let InstructionKind::Assign {
-                dest,
-                source: Value::Operand(src_id),
-                ..
-            } = &copy.kind
-            {
-                dest_to_source.insert(*dest, *src_id);
-            }
-        }
+        let dests: HashSet<ValueId> = copies
+            .iter()
+            .filter_map(|copy| copy.destination())
+            .collect();
 
-        // Build dependency edges: if copy A writes to a value that copy B reads,
-        // then B depends on A (must happen before A)
         for copy in copies {
             if let InstructionKind::Assign {
                 dest,
@@ -144,15 +136,8 @@ impl PhiElimination {
                 ..
             } = &copy.kind
             {
-                // Check if any other copy writes to our source
-                for other_dest in dest_to_source.keys() {
-                    if other_dest == src_id {
-                        // We depend on the copy that writes our source
-                        graph
-                            .entry(*dest)
-                            .or_insert_with(Vec::new)
-                            .push(*other_dest);
-                    }
+                if src_id != dest && dests.contains(src_id) {
+                    graph.entry(*dest).or_insert_with(Vec::new).push(*src_id);
                 }
             }
         }
@@ -230,93 +215,33 @@ impl PhiElimination {
             return copies;
         }
 
-        let graph = self.build_dependency_graph(&copies);
-        let cycles = self.find_cycles(&graph);
-
-        if self.debug && !cycles.is_empty() {
-            eprintln!(
-                "[PhiElimination] Found {} cycles in parallel copies",
-                cycles.len()
-            );
-        }
-
+        let mut copies = copies;
         let mut sequenced = Vec::new();
-        let mut processed = HashSet::new();
 
-        // Handle cycles first by breaking them with temporaries
-        for cycle in cycles {
-            if cycle.len() <= 1 {
-                continue; // Skip trivial cycles
+        // Break every cycle: one of its copies reads its source from a temporary that is
+        // saved before any copy is made
+        let mut graph = self.build_dependency_graph(&copies);
+        for cycle in self.find_cycles(&graph) {
+            if self.debug {
+                eprintln!("[PhiElimination] Breaking cycle {:?}", cycle);
             }
-
             self.stats.cycles_broken += 1;
 
-            // Find the actual copy instructions for this cycle
-            let mut cycle_copies = Vec::new();
-            for copy in &copies {
-                if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                    if cycle.contains(dest) {
-                        cycle_copies.push(copy.clone());
-                        processed.insert(*dest);
+            for copy in &mut copies {
+                if let InstructionKind::Assign { dest, source, ty } = &mut copy.kind {
+                    if *dest == cycle[0] {
+                        let temp = function.new_typed_value_id(ty.clone());
+                        sequenced.push(Instruction::assign(temp, *source, ty.clone()));
+                        *source = Value::Operand(temp);
                     }
                 }
             }
-
-            if cycle_copies.is_empty() {
-                continue;
-            }
-
-            // Break the cycle using a temporary
-            // Save the first source to a temporary
-            if let InstructionKind::Assign { source, ty, .. } = &cycle_copies[0].kind {
-                let temp = function.new_value_id();
-                sequenced.push(Instruction::assign(temp, *source, ty.clone()));
-
-                // Perform the cycle rotations
-                for i in 0..cycle_copies.len() - 1 {
-                    if let (
-                        InstructionKind::Assign {
-                            dest: dest1,
-                            ty: ty1,
-                            ..
-                        },
-                        InstructionKind::Assign {
-                            source: source2, ..
-                        },
-                    ) = (&cycle_copies[i].kind, &cycle_copies[i + 1].kind)
-                    {
-                        sequenced.push(Instruction::assign(*dest1, *source2, ty1.clone()));
-                    }
-                }
-
-                // Restore from temporary to complete the cycle
-                if let InstructionKind::Assign {
-                    dest: last_dest,
-                    ty: last_ty,
-                    ..
-                } = &cycle_copies[cycle_copies.len() - 1].kind
-                {
-                    sequenced.push(Instruction::assign(
-                        *last_dest,
-                        Value::Operand(temp),
-                        last_ty.clone(),
-                    ));
-                }
-            }
         }
-
-        // Add non-cyclic copies in dependency order
-        let mut remaining_copies = Vec::new();
-        for copy in copies {
-            if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                if !processed.contains(dest) {
-                    remaining_copies.push(copy);
-                }
-            }
+        if !sequenced.is_empty() {
+            graph = self.build_dependency_graph(&copies);
         }
 
-        // Topological sort for remaining copies
-        sequenced.extend(self.topological_sort_copies(remaining_copies, &graph));
+        sequenced.extend(self.topological_sort_copies(copies, &graph));
 
         sequenced
     }
-- 
2.43.0


From aed190f9ab2ed501ada93ed1fa3e4cad0c964111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:36 +0000
Subject: [PATCH 31/37] fix: a loop overwrites an aggregate before a value
 extracted from it is passed on

---
 .../mir/src/passes/phi_elimination.rs         | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/mir/src/passes/phi_elimination.rs b/crates/compiler/mir/src/passes/phi_elimination.rs
index 2b0796f..418a2bb 100644
--- a/crates/compiler/mir/src/passes/phi_elimination.rs
+++ b/crates/compiler/mir/src/passes/phi_elimination.rs
@@ -118,10 +118,37 @@ impl PhiElimination {
         predecessor_copies
     }
 
+    /// The value whose storage `value` is read from: what is extracted from an aggregate (or
+    /// updated in it) stays in the place of that aggregate
+    fn storage_of(&self, function: &MirFunction, value: ValueId) -> ValueId {
+        let definition = function.basic_blocks.iter().find_map(|block| {
+            block.instructions.iter().find_map(|i| match &i.kind {
+                InstructionKind::ExtractStructField {
+                    dest, struct_val, ..
+                }
+                | InstructionKind::InsertField {
+                    dest, struct_val, ..
+                } if *dest == value => struct_val.as_operand(),
+                InstructionKind::ExtractTupleElement { dest, tuple, .. } if *dest == value => {
+                    tuple.as_operand()
+                }
+                InstructionKind::InsertTuple {
+                    dest, tuple_val, ..
+                } if *dest == value => tuple_val.as_operand(),
+                _ => None,
+            })
+        });
+        definition.map_or(value, |aggregate| self.storage_of(function, aggregate))
+    }
+
     /// Build a dependency graph for parallel copies
     ///
     /// An edge leads from a copy to the copy that overwrites its source, which has to come later.
-    fn build_dependency_graph(&self, copies: &[Instruction]) -> FxHashMap<ValueId, Vec<ValueId>> {
+    fn build_dependency_graph(
+        &self,
+        function: &MirFunction,
+        copies: &[Instruction],
+    ) -> FxHashMap<ValueId, Vec<ValueId>> {
         let mut graph = FxHashMap::default();
 
         let dests: HashSet<ValueId> = copies
@@ -136,8 +163,9 @@ impl PhiElimination {
                 ..
             } = &copy.kind
             {
-                if src_id != dest && dests.contains(src_id) {
-                    graph.entry(*dest).or_insert_with(Vec::new).push(*src_id);
+                let storage = self.storage_of(function, *src_id);
+                if storage != *dest && dests.contains(&storage) {
+                    graph.entry(*dest).or_insert_with(Vec::new).push(storage);
                 }
             }
         }
@@ -220,7 +248,7 @@ impl PhiElimination {
 
         // Break every cycle: one of its copies reads its source from a temporary that is
         // saved before any copy is made
-        let mut graph = self.build_dependency_graph(&copies);
+        let mut graph = self.build_dependency_graph(function, &copies);
         for cycle in self.find_cycles(&graph) {
             if self.debug {
                 eprintln!("[PhiElimination] Breaking cycle {:?}", cycle);
@@ -238,7 +266,7 @@ impl PhiElimination {
             }
         }
         if !sequenced.is_empty() {
-            graph = self.build_dependency_graph(&copies);
+            graph = self.build_dependency_graph(function, &copies);
         }
 
         sequenced.extend(self.topological_sort_copies(copies, &graph));
-- 
2.43.0


From fd3886829e1e346f61b28ea134bd852d758d0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:04 +0000
Subject: [PATCH 32/37] fix: assigning to a field changes other values that
 share its storage

---
 .../codegen/src/builder/aggregates.rs         | 12 ++++
 crates/compiler/codegen/src/generator.rs      | 65 +++++++++++++++++++
 crates/compiler/mir/src/function.rs           | 31 +++++++++
 3 files changed, 108 insertions(+)

diff --git a/crates/compiler/codegen/src/builder/aggregates.rs b/crates/compiler/codegen/src/builder/aggregates.rs
index 8e4c59c..84c2d60 100644
--- a/crates/compiler/codegen/src/builder/aggregates.rs
+++ b/crates/compiler/codegen/src/builder/aggregates.rs
@@ -94,6 +94,18 @@ impl super::CasmBuilder {
         Ok(())
     }
 
+    /// Copies an aggregate value to the location of another value
+    pub(crate) fn copy_aggregate(
+        &mut self,
+        dest: ValueId,
+        source: &Value,
+        ty: &MirType,
+    ) -> CodegenResult<()> {
+        let size = DataLayout::memory_size_of(ty);
+        let offset = self.layout.allocate_local(dest, size)?;
+        self.copy_value_to_offset(source, offset, size)
+    }
+
     /// Inserts a new value into a struct field (in-place update)
     pub(crate) fn insert_struct_field(
         &mut self,
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 6bd7294..444583e 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -14,6 +14,7 @@ use cairo_m_compiler_mir::{
 use stwo_prover::core::fields::m31::M31;
 use stwo_prover::core::fields::qm31::QM31;
 
+use crate::layout::ValueLayout;
 use crate::mir_passes::legalize::legalize_module_for_vm;
 use crate::{
     CasmBuilder, CodegenError, CodegenResult, FunctionLayout, InstructionBuilder, Label, passes,
@@ -506,6 +507,41 @@ impl CodeGenerator {
                     InstructionKind::HeapAllocCells { dest, cells } => {
                         self.lower_heap_alloc_cells(*dest, cells, builder)?;
                     }
+                    // Inserts write in place: where the content of the source is still needed,
+                    // they get a copy of it
+                    InstructionKind::InsertField {
+                        dest,
+                        struct_val: source,
+                        struct_ty: ty,
+                        ..
+                    }
+                    | InstructionKind::InsertTuple {
+                        dest,
+                        tuple_val: source,
+                        tuple_ty: ty,
+                        ..
+                    } if Self::must_copy(source, function, block_id, idx, builder)? => {
+                        builder.copy_aggregate(*dest, source, ty)?;
+                        let mut on_copy = instruction.clone();
+                        if let InstructionKind::InsertField {
+                            struct_val: source, ..
+                        }
+                        | InstructionKind::InsertTuple {
+                            tuple_val: source, ..
+                        } = &mut on_copy.kind
+                        {
+                            *source = Value::operand(*dest);
+                        }
+                        self.generate_instruction(
+                            &on_copy,
+                            function,
+                            module,
+                            builder,
+                            &block.instructions,
+                            idx,
+                            &block.terminator,
+                        )?;
+                    }
                     _ => {
                         self.generate_instruction(
                             instruction,
@@ -540,6 +576,35 @@ impl CodeGenerator {
         Ok(())
     }
 
+    /// Checks if an aggregate cannot be updated in place: it belongs to the caller, or its
+    /// storage holds a value (itself, or one it shares its place with) that is read later
+    fn must_copy(
+        source: &Value,
+        function: &MirFunction,
+        block_id: BasicBlockId,
+        instruction_index: usize,
+        builder: &CasmBuilder,
+    ) -> CodegenResult<bool> {
+        let Value::Operand(source) = source else {
+            return Ok(false);
+        };
+        let start = builder.layout.get_offset(*source)?;
+        let end = start + builder.layout.get_value_size(*source) as i32;
+        if start < 0 {
+            return Ok(true);
+        }
+        Ok(builder.layout.all_layouts().iter().any(|(id, layout)| {
+            let (offset, size) = match layout {
+                ValueLayout::Slot { offset } => (*offset, 1),
+                ValueLayout::MultiSlot { offset, size } => (*offset, *size as i32),
+                ValueLayout::Constant(_) | ValueLayout::OptimizedOut => return false,
+            };
+            offset < end
+                && start < offset + size
+                && function.is_live_after(*id, block_id, instruction_index)
+        }))
+    }
+
     /// Helper function to find direct argument placement offset
     ///
     /// Checks if the next instruction is a call and if the given destination
diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index d83422f..bdb9bf8 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -167,6 +167,37 @@ impl MirFunction {
         Ok(())
     }
 
+    /// Checks if the current content of a value is still read after an instruction
+    pub fn is_live_after(&self, value: ValueId, block: BasicBlockId, instruction: usize) -> bool {
+        let mut visited = FxHashSet::default();
+        let mut pending = vec![(block, instruction + 1)];
+        while let Some((block_id, start)) = pending.pop() {
+            let block = &self.basic_blocks[block_id];
+            let mut redefined = false;
+            for instr in block.instructions.iter().skip(start) {
+                if instr.used_values().contains(&value) {
+                    return true;
+                }
+                if instr.destinations().contains(&value) {
+                    redefined = true;
+                    break;
+                }
+            }
+            if redefined {
+                continue;
+            }
+            if block.terminator.used_values().contains(&value) {
+                return true;
+            }
+            for successor in block.terminator.target_blocks() {
+                if visited.insert(successor) {
+                    pending.push((successor, 0));
+                }
+            }
+        }
+        false
+    }
+
     /// Returns an iterator over all basic blocks
     pub fn basic_blocks(&self) -> impl Iterator<Item = (BasicBlockId, &BasicBlock)> {
         self.basic_blocks.iter_enumerated()
-- 
2.43.0


From 1105cac4df89267f209df2a361e1d33893885476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:51 +0000
Subject: [PATCH 33/37] fix: scalar replacement drops aggregates that are still
 read and updates shared ones

---
 crates/compiler/mir/src/passes/sroa.rs | 185 ++++++++++++++++++-------
 1 file changed, 136 insertions(+), 49 deletions(-)

diff --git a/crates/compiler/mir/src/passes/sroa.rs b/crates/compiler/mir/src/passes/sroa.rs
index cd29991..69c5e9a 100644
--- a/crates/compiler/mir/src/passes/sroa.rs
+++ b/crates/compiler/mir/src/passes/sroa.rs
@@ -384,6 +384,17 @@ impl ScalarReplacementOfAggregates {
                         }
                     }
                 }
+                // Arrays must be materialized when they are put into another aggregate
+                InstructionKind::InsertField { new_value, .. }
+                | InstructionKind::InsertTuple { new_value, .. }
+                    if new_value.as_operand() == Some(*dest)
+                        && matches!(
+                            function.get_value_type(*dest),
+                            Some(MirType::FixedArray { .. })
+                        ) =>
+                {
+                    return false;
+                }
                 // Check if used in load/store with non-constant index - cannot scalarize
                 InstructionKind::Load { place, .. } | InstructionKind::Store { place, .. } => {
                     if place.base == *dest {
@@ -1140,6 +1151,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                             self.stats.extracts_rewritten += 1;
                             block_modified = true;
                         } else {
+                            untrack(function, &mut new_instrs, &mut agg_states, place.base);
                             new_instrs.push(inst);
                         }
                     }
@@ -1155,6 +1167,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                             continue;
                         }
 
+                        // From here on, the array has to be a real one
+                        untrack(function, &mut new_instrs, &mut agg_states, place.base);
+
                         // Forwarding failed. If `value` references a tracked aggregate state,
                         // materialize the aggregate and rewrite the Store to use the new value.
                         if let Value::Operand(agg_id) = value
@@ -1224,6 +1239,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                             self.stats.extracts_rewritten += 1;
                             block_modified = true;
                         } else {
+                            untrack(function, &mut new_instrs, &mut agg_states, place.base);
                             new_instrs.push(inst);
                         }
                     }
@@ -1347,6 +1363,7 @@ impl MirPass for ScalarReplacementOfAggregates {
 
             if block_modified {
                 modified_any = true;
+                let new_instrs = restore_definitions(function, bb, new_instrs, &agg_states);
                 if let Some(block_mut) = function.get_basic_block_mut(bb) {
                     // Reinstall updated instruction list: phi prefix + rewritten tail
                     block_mut.instructions.clear();
@@ -1423,6 +1440,14 @@ fn materialize(
     state: &AggState,
     ty: &MirType,
 ) -> ValueId {
+    let dest = func.new_typed_value_id(ty.clone());
+    // Anything but an aggregate should not get here
+    sink.extend(build_aggregate(dest, state, ty));
+    dest
+}
+
+/// The instruction that builds an aggregate from its components
+fn build_aggregate(dest: ValueId, state: &AggState, ty: &MirType) -> Option<Instruction> {
     match ty {
         MirType::Tuple(elem_tys) => {
             // Sanity check on arity; if mismatch, truncate/pad with unit (defensive)
@@ -1433,9 +1458,7 @@ fn materialize(
                     elems.push(Value::unit());
                 }
             }
-            let dest = func.new_typed_value_id(ty.clone());
-            sink.push(Instruction::make_tuple(dest, elems));
-            dest
+            Some(Instruction::make_tuple(dest, elems))
         }
         MirType::Struct { fields, .. } => {
             // Rebuild in declared order with names
@@ -1444,9 +1467,7 @@ fn materialize(
                 let v = state.elems.get(i).cloned().unwrap_or_else(Value::unit);
                 pairs.push((name.clone(), v));
             }
-            let dest = func.new_typed_value_id(ty.clone());
-            sink.push(Instruction::make_struct(dest, pairs, ty.clone()));
-            dest
+            Some(Instruction::make_struct(dest, pairs, ty.clone()))
         }
         MirType::FixedArray { element_type, size } => {
             // Rebuild array from elements. The tracked element count must match the array size.
@@ -1457,18 +1478,13 @@ fn materialize(
                 state.elems.len(),
                 size
             );
-            let dest = func.new_typed_value_id(ty.clone());
-            sink.push(Instruction::make_fixed_array(
+            Some(Instruction::make_fixed_array(
                 dest,
                 state.elems.clone(),
                 (**element_type).clone(),
-            ));
-            dest
-        }
-        _ => {
-            // Not an aggregate; should not be called
-            func.new_typed_value_id(ty.clone())
+            ))
         }
+        _ => None,
     }
 }
 
@@ -1546,7 +1562,7 @@ fn forward_projection_chain(
 /// any step cannot be resolved conservatively, in which case the original Store
 /// must be kept.
 fn try_forward_store_chain(
-    function: &MirFunction,
+    function: &mut MirFunction,
     agg_states: &mut FxHashMap<ValueId, AggState>,
     place: &crate::Place,
     new_value: Value,
@@ -1571,45 +1587,116 @@ fn try_forward_store_chain(
         return true;
     }
 
-    // Otherwise, walk nested projections starting from the selected element
-    let mut current_val = state.elems[i];
-    let mut projections_iter = place.projections.iter().skip(1).peekable();
+    // Otherwise, put an updated copy of the selected element in its place
+    let element = state.elems[i];
+    let updated = element.as_operand().and_then(|id| {
+        update_aggregate(function, agg_states, id, &place.projections[1..], new_value)
+    });
+    let Some(updated) = updated else {
+        return false;
+    };
+    if let Some(state) = agg_states.get_mut(&place.base) {
+        state.elems[i] = Value::operand(updated);
+    }
+    true
+}
 
-    while let Some(proj) = projections_iter.next() {
-        // We must have an operand referencing a tracked aggregate state to go deeper
-        let Some(cur_id) = current_val.as_operand() else {
-            return false;
-        };
-        let Some(cur_state) = agg_states.get_mut(&cur_id) else {
-            return false;
-        };
+/// Track a copy of an aggregate that differs in the component the projections lead to.
+///
+/// The aggregate itself is left alone: other values may hold it, too.
+fn update_aggregate(
+    function: &mut MirFunction,
+    agg_states: &mut FxHashMap<ValueId, AggState>,
+    id: ValueId,
+    projections: &[Projection],
+    new_value: Value,
+) -> Option<ValueId> {
+    let ty = function.get_value_type(id)?.clone();
+    let index = match projections.first()? {
+        Projection::Tuple(index) => *index,
+        Projection::Field(name) => struct_field_index(&ty, name)?,
+        Projection::Index(_) => return None,
+    };
+    let mut state = agg_states.get(&id)?.clone();
+    let component = *state.elems.get(index)?;
+    state.elems[index] = if projections.len() == 1 {
+        new_value
+    } else {
+        let inner = component.as_operand()?;
+        let rest = &projections[1..];
+        Value::operand(update_aggregate(
+            function, agg_states, inner, rest, new_value,
+        )?)
+    };
+    let updated = function.new_typed_value_id(ty);
+    agg_states.insert(updated, state);
+    Some(updated)
+}
 
-        // Determine the child index based on projection kind
-        let child_index_opt: Option<usize> = match proj {
-            Projection::Tuple(ti) => Some(*ti),
-            Projection::Field(name) => function
-                .get_value_type(cur_id)
-                .and_then(|ty| struct_field_index(ty, name)),
-            Projection::Index(v) => v.as_const_integer().map(|x| x as usize),
-        };
+/// Stop tracking an aggregate that is accessed in a way that cannot be forwarded
+fn untrack(
+    function: &MirFunction,
+    sink: &mut Vec<Instruction>,
+    agg_states: &mut FxHashMap<ValueId, AggState>,
+    id: ValueId,
+) {
+    if let Some(state) = agg_states.remove(&id)
+        && let Some(ty) = function.get_value_type(id)
+    {
+        sink.extend(build_aggregate(id, &state, ty));
+    }
+}
 
-        let Some(child_index) = child_index_opt else {
-            return false;
-        };
-        if child_index >= cur_state.elems.len() {
-            return false;
+/// Put back the definitions of dropped aggregates that are still read: by an instruction that was
+/// kept, by an aggregate that was materialized, by the terminator or by another block
+fn restore_definitions(
+    function: &MirFunction,
+    block: BasicBlockId,
+    instructions: Vec<Instruction>,
+    agg_states: &FxHashMap<ValueId, AggState>,
+) -> Vec<Instruction> {
+    fn define(
+        function: &MirFunction,
+        used: FxHashSet<ValueId>,
+        agg_states: &FxHashMap<ValueId, AggState>,
+        defined: &mut FxHashSet<ValueId>,
+        sink: &mut Vec<Instruction>,
+    ) {
+        let mut used: Vec<_> = used.into_iter().collect();
+        used.sort();
+        for id in used {
+            if let Some(state) = agg_states.get(&id)
+                && let Some(ty) = function.get_value_type(id)
+                && let Some(definition) = build_aggregate(id, state, ty)
+                && defined.insert(id)
+            {
+                let parts = definition.used_values().into_iter().collect();
+                define(function, parts, agg_states, defined, sink);
+                sink.push(definition);
+            }
         }
+    }
 
-        let is_last = projections_iter.peek().is_none();
-        if is_last {
-            // Perform the leaf update
-            cur_state.elems[child_index] = new_value;
-            return true;
-        } else {
-            // Descend into the child for the next iteration
-            current_val = cur_state.elems[child_index];
-        }
+    let mut defined = FxHashSet::default();
+    let mut result = Vec::with_capacity(instructions.len());
+    for instruction in instructions {
+        let used = match instruction.kind {
+            InstructionKind::Phi { .. } => FxHashSet::default(),
+            _ => instruction.used_values().into_iter().collect(),
+        };
+        define(function, used, agg_states, &mut defined, &mut result);
+        result.push(instruction);
     }
 
-    false
+    let mut used_at_end = FxHashSet::default();
+    for (id, other) in function.basic_blocks.iter_enumerated() {
+        for instruction in &other.instructions {
+            if id != block || matches!(instruction.kind, InstructionKind::Phi { .. }) {
+                used_at_end.extend(instruction.used_values());
+            }
+        }
+        used_at_end.extend(other.terminator.used_values());
+    }
+    define(function, used_at_end, agg_states, &mut defined, &mut result);
+    result
 }
-- 
2.43.0


From 071f9d5df3516fef14221387fdfbe25b9249e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:23 +0000
Subject: [PATCH 34/37] fix: nested pointer arguments overlap the frame and
 arrays of a wrong length panic

---
 crates/runner/src/lib.rs | 66 ++++++++++------------------------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index 0341d52..285aad7 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -65,70 +65,36 @@ pub struct RunnerOutput {
 /// Calculates the total number of memory cells needed for materializing array data
 /// when passing arguments to a function.
 ///
-/// Arrays are passed as pointers in the call ABI, but their contents must be
+/// Arrays and pointers are passed as pointers in the call ABI, but their contents must be
 /// materialized in memory. This function recursively calculates the total space needed
-/// for all arrays (including nested arrays within tuples/structs).
+/// for all of them (including the ones nested within tuples, structs, arrays and pointers),
+/// going by the values provided, which is what gets encoded.
 ///
 /// ## Returns
 /// Number of M31 cells needed for materialized array contents
-fn calculate_array_materialization_size(ty: &AbiType) -> usize {
-    match ty {
-        AbiType::FixedSizeArray { element, size } => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            (*size as usize) * (element_call_size + nested_array_size)
-        }
-        AbiType::Tuple(elements) => elements
-            .iter()
-            .map(calculate_array_materialization_size)
-            .sum(),
-        AbiType::Struct { fields, .. } => fields
+fn calculate_array_materialization_size(ty: &AbiType, val: &InputValue) -> usize {
+    match (ty, val) {
+        (
+            AbiType::FixedSizeArray { element, .. } | AbiType::Pointer { element, .. },
+            InputValue::List(values),
+        ) => values
             .iter()
-            .map(|(_, field_type)| calculate_array_materialization_size(field_type))
+            .map(|v| {
+                AbiType::call_slot_size(element) + calculate_array_materialization_size(element, v)
+            })
             .sum(),
-        // Scalar types don't require array materialization
-        _ => 0,
-    }
-}
-
-/// Value-aware materialization size calculator for arguments.
-/// Handles dynamic pointers by using the provided values to determine the
-/// number of cells to allocate inline.
-fn calculate_array_materialization_size_with_value(ty: &AbiType, val: &InputValue) -> usize {
-    match (ty, val) {
-        // Static arrays: compute based on declared size and recurse into element type for nested arrays
-        (AbiType::FixedSizeArray { element, size }, InputValue::List(values)) => {
-            assert_eq!(*size, values.len() as u32);
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            (*size as usize) * (element_call_size + nested_array_size)
-        }
-        // Dynamic pointer: count elements and account for nested arrays in element
-        (AbiType::Pointer { element, len }, InputValue::List(values)) => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            let count = len.unwrap_or(values.len() as u32) as usize;
-            count * (element_call_size + nested_array_size)
-        }
-        // Numeric value for pointer means a single element
-        (AbiType::Pointer { element, len }, InputValue::Number(_)) => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            let count = len.unwrap_or(1) as usize;
-            count * (element_call_size + nested_array_size)
-        }
         // Aggregates: recurse element-wise
         (AbiType::Tuple(types), InputValue::List(values)) => types
             .iter()
             .zip(values.iter())
-            .map(|(t, v)| calculate_array_materialization_size_with_value(t, v))
+            .map(|(t, v)| calculate_array_materialization_size(t, v))
             .sum(),
         (AbiType::Struct { fields, .. }, InputValue::Struct(values)) => fields
             .iter()
             .zip(values.iter())
-            .map(|((_, t), v)| calculate_array_materialization_size_with_value(t, v))
+            .map(|((_, t), v)| calculate_array_materialization_size(t, v))
             .sum(),
-        // No materialization for numeric pointers (raw addresses) or scalars
+        // Scalar types don't require array materialization
         _ => 0,
     }
 }
@@ -419,7 +385,7 @@ pub fn run_cairo_program(
         .params
         .iter()
         .zip(args.iter())
-        .map(|(param, arg)| calculate_array_materialization_size_with_value(&param.ty, arg))
+        .map(|(param, arg)| calculate_array_materialization_size(&param.ty, arg))
         .sum();
 
     let return_slot_count: usize = entrypoint_info
-- 
2.43.0


From 4a4a1e87d5122b809c3f6870f4b156dc67251c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:23 +0000
Subject: [PATCH 35/37] fix: the public input and output of a run with arrays
 are not its arguments and results

---
 crates/runner/src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index 285aad7..5fcf115 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -432,12 +432,15 @@ pub fn run_cairo_program(
     let decoded_returns =
         decode_all_return_values(&entrypoint_info.returns, &raw_return_frame, &vm)?;
 
-    // Create public address ranges for proof generation
-    let public_address_ranges = PublicAddressRanges::new(
-        vm.program_length.0,
-        encoded_arguments.len(),
-        return_slot_count,
-    );
+    // Create public address ranges for proof generation. The arguments follow the materialized
+    // array data, which follows the program.
+    let input_start = vm.program_length.0 + array_materialization_size as u32;
+    let input_end = input_start + encoded_arguments.len() as u32;
+    let public_address_ranges = PublicAddressRanges {
+        program: 0..vm.program_length.0,
+        input: input_start..input_end,
+        output: input_end..input_end + return_slot_count as u32,
+    };
 
     Ok(RunnerOutput {
         return_values: decoded_returns,
-- 
2.43.0


From acb965c811415941fb9273333cc987d7687e8e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:23 +0000
Subject: [PATCH 36/37] fix: trace files of a path whose only dots are in its
 folders go elsewhere

---
 crates/runner/src/vm/mod.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/crates/runner/src/vm/mod.rs b/crates/runner/src/vm/mod.rs
index 329a655..d3e4634 100644
--- a/crates/runner/src/vm/mod.rs
+++ b/crates/runner/src/vm/mod.rs
@@ -4,7 +4,7 @@ pub mod state;
 use std::collections::HashMap;
 use std::fs::File;
 use std::io::{self, Write};
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 use cairo_m_common::execution::Segment;
 use cairo_m_common::instruction::InstructionError;
@@ -119,6 +119,17 @@ impl TryFrom<&Program> for VM {
     }
 }
 
+/// The path for the trace of a segment: `dir/name.ext` becomes `dir/name_segment_<index>.ext`.
+fn segment_path(path: &Path, index: usize) -> PathBuf {
+    let mut name = path.file_stem().unwrap_or_default().to_os_string();
+    name.push(format!("_segment_{index}"));
+    if let Some(ext) = path.extension() {
+        name.push(".");
+        name.push(ext);
+    }
+    path.with_file_name(name)
+}
+
 impl VM {
     /// Executes a single instruction at the current program counter (PC).
     ///
@@ -305,17 +316,10 @@ impl VM {
     /// - Writing to any file fails
     pub fn write_binary_trace<P: AsRef<Path>>(&self, path: P) -> Result<(), VmError> {
         let path = path.as_ref();
-        let path_str = path.to_string_lossy();
-
-        // Extract base name and extension
-        let (base, ext) = path_str.rfind('.').map_or_else(
-            || (path_str.as_ref(), ""),
-            |dot_pos| (&path_str[..dot_pos], &path_str[dot_pos..]),
-        );
 
         // Write each segment's trace
         for (i, segment) in self.segments.iter().enumerate() {
-            let segment_path = format!("{}_segment_{}{}", base, i, ext);
+            let segment_path = segment_path(path, i);
             let serialized_trace = segment.serialize_segment_trace();
             let mut file = File::create(&segment_path)?;
             file.write_all(&serialized_trace)?;
@@ -348,17 +352,10 @@ impl VM {
     /// - Writing to any file fails
     pub fn write_binary_memory_trace<P: AsRef<Path>>(&self, path: P) -> Result<(), VmError> {
         let path = path.as_ref();
-        let path_str = path.to_string_lossy();
-
-        // Extract base name and extension
-        let (base, ext) = path_str.rfind('.').map_or_else(
-            || (path_str.as_ref(), ""),
-            |dot_pos| (&path_str[..dot_pos], &path_str[dot_pos..]),
-        );
 
         // Write each segment's memory trace
         for (i, segment) in self.segments.iter().enumerate() {
-            let segment_path = format!("{}_segment_{}{}", base, i, ext);
+            let segment_path = segment_path(path, i);
             let mut file = File::create(&segment_path)?;
 
             // Write program length
-- 
2.43.0


From 7f7d883de19cbbdb78a9d489c95f8dc1e2684422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:29 +0000
Subject: [PATCH 37/37] fix: keep calls whose result is unused when local CSE
 cleans up a block

---
 crates/compiler/mir/src/passes/local_cse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/passes/local_cse.rs b/crates/compiler/mir/src/passes/local_cse.rs
index abe9c1e..7603a0c 100644
--- a/crates/compiler/mir/src/passes/local_cse.rs
+++ b/crates/compiler/mir/src/passes/local_cse.rs
@@ -267,7 +267,10 @@ impl LocalCSE {
         if let Some(block) = function.basic_blocks.get_mut(block_id) {
             // Remove instructions whose destinations are no longer used
             block.instructions.retain(|instr| {
-                if let Some(dest) = instr.destination() {
+                if instr.has_side_effects() {
+                    // Keep calls and other instructions that do more than produce their result
+                    true
+                } else if let Some(dest) = instr.destination() {
                     // Keep instruction if its result is still used
                     use_counts.get(&dest).copied().unwrap_or(0) > 0
                 } else {
-- 
2.43.0

