From 48a6129c5d1019cedfe0a08a59980eff4c63827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:57 +0000
Subject: [PATCH 01/28] fix: report reserved, unrecognised and misplaced tokens
 instead of panicking

---
 dice-syntax/src/parser/rules.rs | 34 +++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/dice-syntax/src/parser/rules.rs b/dice-syntax/src/parser/rules.rs
index 7024442..c611657 100644
--- a/dice-syntax/src/parser/rules.rs
+++ b/dice-syntax/src/parser/rules.rs
@@ -1,7 +1,11 @@
 use std::collections::HashMap;
 
-use dice_core::error::Error;
+use dice_core::error::{
+    codes::{RESERVED_KEYWORD, UNEXPECTED_TOKEN, UNRECOGNIZED_INPUT},
+    Error,
+};
 use dice_core::span::Span;
+use dice_core::tags;
 
 use crate::{
     lexer::{Token, TokenKind},
@@ -226,22 +230,32 @@ impl<'a> ParserRules<'a> {
 
     pub fn for_token(&self, token: &Token) -> Result<&Rule<'a>, Error> {
         self.rules.get(&token.kind).ok_or_else(|| {
-            todo!()
-            // let error = if token.kind == TokenKind::Reserved {
-            //     RESERVED_KEYWORD
-            // } else {
-            //     UNRECOGNIZED_INPUT
-            // };
+            let error = match token.kind {
+                TokenKind::Reserved => Error::new(RESERVED_KEYWORD).with_tags(tags! {
+                    input => token.slice.to_string()
+                }),
+                TokenKind::Error => Error::new(UNRECOGNIZED_INPUT).with_tags(tags! {
+                    input => token.slice.to_string()
+                }),
+                _ => Error::new(UNEXPECTED_TOKEN).with_tags(tags! {
+                    actual => token.kind.to_string(),
+                    expected => self.expected_tokens()
+                }),
+            };
 
-            // Error::new(error).with_span(token.span).with_tags(tags! {
-            //     input => token.slice.to_string()
-            // })
+            error.with_span(token.span)
         })
     }
 
     pub fn prefix_tokens(&self) -> &[TokenKind] {
         &self.prefix_tokens
     }
+
+    fn expected_tokens(&self) -> String {
+        let mut tokens = self.prefix_tokens.clone();
+        tokens.sort();
+        tokens.iter().map(ToString::to_string).collect::<Vec<_>>().join(", ")
+    }
 }
 
 #[derive(Default)]
-- 
2.43.0


From f18afbcbe7ed218159f134cee5dc817b04fdc6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:57 +0000
Subject: [PATCH 02/28] fix: report unterminated strings and backslash
 arguments

---
 data/locales/en-US/errors.ftl  | 1 +
 dice-syntax/src/lexer/token.rs | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index d10c728..929c5e7 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -8,6 +8,7 @@ E1005 = Function has too many arguments (max: 255).
 E1006 = Operator has an incorrect number of arguments (1 for unary operators and 2 for binary).
 E1007 = Invalid integer value: {$message}
 E1008 = Invalid float value: {$message}
+E1009 = Unterminated backslash argument encountered.
 
 # Compiler errors
 E2000 = Internal Compiler Error (please report this as a bug with code to reproduce the issue).
diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index a8ab006..a3f86a7 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -7,7 +7,7 @@ use logos::{Lexer, Logos};
 
 use dice_core::{
     error::{
-        codes::{INVALID_ESCAPE_SEQUENCE, UNTERMINATED_STRING},
+        codes::{INVALID_ESCAPE_SEQUENCE, UNTERMINATED_BACKSLASH_ARG, UNTERMINATED_STRING},
         Error, ResultExt,
     },
     source::Source,
@@ -319,7 +319,7 @@ fn lex_backslash_arg(lexer: &mut Lexer<TokenKind>) -> bool {
                 input.push(current);
             }
             None => {
-                // lexer.extras.set_error(Error::new(UNTERMINATED_BACKSLASH_ARG));
+                lexer.extras.set_error(Error::new(UNTERMINATED_BACKSLASH_ARG));
                 return false;
             }
         }
@@ -372,7 +372,7 @@ fn lex_string(lexer: &mut Lexer<TokenKind>) -> bool {
                 result.push(current);
             }
             None => {
-                //   lexer.extras.set_error(Error::new(UNTERMINATED_STRING));
+                lexer.extras.set_error(Error::new(UNTERMINATED_STRING));
                 return false;
             }
         }
-- 
2.43.0


From fd42dff0d24dca0de3892c6debcb6c27dee81712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:57 +0000
Subject: [PATCH 03/28] fix: reject input following an unmatched closing curly
 brace

---
 dice-syntax/src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index c7cde60..f89e0a0 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -53,6 +53,8 @@ impl<'a> Parser<'a> {
 
     pub fn parse(mut self) -> Result<SyntaxTree, Error> {
         let root = self.expression_sequence()?;
+        // NOTE: An expression sequence also ends at a closing curly brace, which is not valid outside of a block.
+        self.lexer.consume(TokenKind::EndOfInput)?;
 
         Ok(SyntaxTree::new(root, self.arena))
     }
-- 
2.43.0


From 4fdae4b1a53a20516a9dc0eb29f4d0ddcbd47905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:58 +0000
Subject: [PATCH 04/28] fix: consume the exported identifier

---
 dice-syntax/src/parser/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index f89e0a0..929f5ef 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -322,9 +322,11 @@ impl<'a> Parser<'a> {
             TokenKind::Let => self.var_decl()?,
             TokenKind::Function => self.fn_decl()?,
             TokenKind::Class => self.class_decl()?,
-            TokenKind::Identifier => self
-                .arena
-                .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span))),
+            TokenKind::Identifier => {
+                self.lexer.next()?;
+                self.arena
+                    .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span)))
+            }
             kind => self.unexpected_token(
                 kind,
                 &[
-- 
2.43.0


From 186c6eb99754134e109a82a594c3e523bfe4a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 05/28] fix: make the spans of operators and blocks cover the
 whole construct

---
 dice-syntax/src/parser/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 929f5ef..a429433 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -244,9 +244,14 @@ impl<'a> Parser<'a> {
     }
 
     fn block_expression(&mut self, _: bool) -> ParseResult {
-        self.lexer.consume(TokenKind::LeftCurly)?;
+        let span_start = self.lexer.consume(TokenKind::LeftCurly)?.span;
         let expressions = self.expression_sequence()?;
-        self.lexer.consume(TokenKind::RightCurly)?;
+        let span_end = self.lexer.consume(TokenKind::RightCurly)?.span;
+
+        // NOTE: The expression sequence doesn't include the delimiters of the block.
+        if let SyntaxNode::Block(block) = &mut self.arena[expressions] {
+            block.span = span_start + span_end;
+        }
 
         Ok(expressions)
     }
@@ -647,12 +652,13 @@ impl<'a> Parser<'a> {
         let rule = self.rules.for_token(&token).with_source(|| self.source.clone())?;
         let precedence = rule.infix.expect("Invalid infix rule.").1.increment();
         let rhs = self.parse_precedence(precedence)?;
+        let span_end = self.lexer.current().span;
 
         let node = SyntaxNode::Binary(Binary {
             operator,
             lhs_expression: lhs,
             rhs_expression: rhs,
-            span: span_start + token.span,
+            span: span_start + span_end,
         });
 
         Ok(self.arena.alloc(node))
@@ -672,6 +678,7 @@ impl<'a> Parser<'a> {
     fn prefix_operator(&mut self, _: bool) -> ParseResult {
         let token = self.lexer.next()?.clone();
         let child_node_id = self.parse_precedence(Precedence::Unary)?;
+        let span_end = self.lexer.current().span;
         let operator = match token.kind {
             TokenKind::Minus => UnaryOperator::Negate,
             TokenKind::Not => UnaryOperator::Not,
@@ -680,7 +687,7 @@ impl<'a> Parser<'a> {
         let node = SyntaxNode::Prefix(Prefix {
             operator,
             expression: child_node_id,
-            span: token.span,
+            span: token.span + span_end,
         });
 
         Ok(self.arena.alloc(node))
-- 
2.43.0


From 5a02e1357495b8e01065cb3ccc39208878afd488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 06/28] fix: require a block or an if after else

---
 dice-syntax/src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index a429433..02ed9c7 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -152,10 +152,12 @@ impl<'a> Parser<'a> {
         let secondary = if self.lexer.peek()?.kind == TokenKind::Else {
             self.lexer.consume(TokenKind::Else)?;
 
-            match self.lexer.peek()?.kind {
+            let next_token = self.lexer.peek()?;
+
+            match next_token.kind {
                 TokenKind::If => Some(self.if_expression(false)?),
                 TokenKind::LeftCurly => Some(self.block_expression(false)?),
-                _ => None,
+                kind => self.unexpected_token(kind, &[TokenKind::If, TokenKind::LeftCurly], next_token.span)?,
             }
         } else {
             None
-- 
2.43.0


From 98836ae5b74b2f19f24505de68921cf99655efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:57 +0000
Subject: [PATCH 07/28] fix: decode escape sequences of strings and string
 object keys

---
 dice-syntax/src/parser/mod.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 02ed9c7..ca509c1 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -961,7 +961,10 @@ impl<'a> Parser<'a> {
         while self.lexer.peek()?.kind != TokenKind::RightCurly {
             let next = self.lexer.next()?.clone();
             let key = match next.kind {
-                TokenKind::String | TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
+                TokenKind::String => process_string(next.slice, StringMode::Escaped)
+                    .with_source(|| self.source.clone())
+                    .with_span(|| next.span)?,
+                TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
                 kind => self.unexpected_token(
                     kind,
                     &[TokenKind::String, TokenKind::Integer, TokenKind::Identifier],
@@ -1142,8 +1145,32 @@ enum StringMode {
     Escaped,
 }
 
-fn process_string(input: &str, _mode: StringMode) -> Result<String, Error> {
-    // TODO: Process escape sequences.
+fn process_string(input: &str, mode: StringMode) -> Result<String, Error> {
+    let input = &input[1..input.len() - 1];
+
+    match mode {
+        StringMode::Raw => Ok(input.to_owned()),
+        StringMode::Escaped => {
+            let mut result = String::with_capacity(input.len());
+            let mut chars = input.chars();
 
-    Ok(input[1..input.len() - 1].to_owned())
+            while let Some(current) = chars.next() {
+                if current != '\\' {
+                    result.push(current);
+                    continue;
+                }
+
+                match chars.next() {
+                    Some('n') => result.push('\n'),
+                    Some('r') => result.push('\r'),
+                    Some('t') => result.push('\t'),
+                    // NOTE: The lexer only accepts known escape sequences, and the rest stand for themselves.
+                    Some(escaped) => result.push(escaped),
+                    None => {}
+                }
+            }
+
+            Ok(result)
+        }
+    }
 }
-- 
2.43.0


From 500a626c3cedcb9addf5637825e9173e14a595da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:58 +0000
Subject: [PATCH 08/28] fix: accept empty comments

---
 dice-syntax/src/lexer/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index a3f86a7..85aae62 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -222,7 +222,7 @@ pub enum TokenKind {
     BackslashArg,
 
     #[error]
-    #[regex(r"[ \t\r\n\f]+|//[^\r\n]+", logos::skip)]
+    #[regex(r"[ \t\r\n\f]+|//[^\r\n]*", logos::skip)]
     Error,
 }
 
-- 
2.43.0


From 9111605378cc4288db1c7f34d1891daaa61fbc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:58 +0000
Subject: [PATCH 09/28] fix: display the range operators as they are written

---
 dice-syntax/src/ast/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/ast/node.rs b/dice-syntax/src/ast/node.rs
index b3143c6..4c84fa1 100644
--- a/dice-syntax/src/ast/node.rs
+++ b/dice-syntax/src/ast/node.rs
@@ -277,8 +277,8 @@ impl Display for OverloadedOperator {
             OverloadedOperator::LessThanEquals => write!(f, "<="),
             OverloadedOperator::Equals => write!(f, "=="),
             OverloadedOperator::NotEquals => write!(f, "!="),
-            OverloadedOperator::RangeInclusive => write!(f, ".."),
-            OverloadedOperator::RangeExclusive => write!(f, "..="),
+            OverloadedOperator::RangeInclusive => write!(f, "..="),
+            OverloadedOperator::RangeExclusive => write!(f, ".."),
         }
     }
 }
-- 
2.43.0


From 2bbb83829e4b10f1957308271a1e89a78bf45bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:26 +0000
Subject: [PATCH 10/28] fix: report the unexpected token itself after op and
 super

---
 dice-syntax/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index ca509c1..76a0712 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -443,6 +443,7 @@ impl<'a> Parser<'a> {
     fn op_decl(&mut self) -> ParseResult {
         let span_start = self.lexer.consume(TokenKind::Operator)?.span;
         let operator_token = self.lexer.next()?;
+        let operator_span = operator_token.span;
         let operator = match operator_token.kind.clone() {
             TokenKind::Star => OverloadedOperator::Multiply,
             TokenKind::Slash => OverloadedOperator::Divide,
@@ -474,7 +475,7 @@ impl<'a> Parser<'a> {
                     TokenKind::RangeExclusive,
                     TokenKind::RangeInclusive,
                 ],
-                span_start,
+                operator_span,
             )?,
         };
         let args = self.parse_args(TokenKind::LeftParen, TokenKind::RightParen)?;
@@ -833,7 +834,7 @@ impl<'a> Parser<'a> {
             kind => self.unexpected_token(
                 kind,
                 &[TokenKind::Dot, TokenKind::LeftSquare, TokenKind::LeftParen],
-                span_start,
+                next_token.span,
             ),
         }
     }
-- 
2.43.0


From 7a5f9e1c4ab5ee808113d6866a8029011f52dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:27 +0000
Subject: [PATCH 11/28] fix: report exported destructuring declarations instead
 of panicking

---
 dice-compiler/src/visitor/decl_export.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dice-compiler/src/visitor/decl_export.rs b/dice-compiler/src/visitor/decl_export.rs
index e10366e..5898fff 100644
--- a/dice-compiler/src/visitor/decl_export.rs
+++ b/dice-compiler/src/visitor/decl_export.rs
@@ -31,6 +31,17 @@ impl NodeVisitor<&ExportDecl> for Compiler {
                 .with_span(node.span));
         }
 
+        // NOTE: A destructured variable declaration doesn't have a single name to export.
+        if let SyntaxNode::VarDecl(VarDecl {
+            kind: VarDeclKind::Destructured(_),
+            ..
+        }) = self.syntax_tree.get(node.export)
+        {
+            return Err(Error::new(INVALID_EXPORT_USAGE)
+                .with_source(self.source.clone())
+                .with_span(node.span));
+        }
+
         let export_slot = self
             .context()?
             .scope_stack()
-- 
2.43.0


From c47969834afadf127cfb5a7160ff3539318ce652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:28 +0000
Subject: [PATCH 12/28] fix: report functions and classes declared under a name
 already in use

---
 dice-compiler/src/visitor/decl_class.rs | 11 +++++------
 dice-compiler/src/visitor/decl_fn.rs    |  7 +++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index d36bc6e..6600bbd 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -54,17 +54,16 @@ impl NodeVisitor<&ClassDecl> for Compiler {
                 .local(class_name)
                 .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-            // NOTE: Check if a class of the given name has already been initialized.
-            if let State::Class { ref mut is_initialized } = &mut local.state {
-                if *is_initialized {
+            // NOTE: Check if a class of the given name has already been initialized, or if the name refers to something else.
+            match &mut local.state {
+                State::Class { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+                _ => {
                     return Err(Error::new(CLASS_ALREADY_DECLARED)
                         .with_span(node.name.span)
                         .with_tags(tags! {
                             name => node.name.identifier.clone()
-                        }));
+                        }))
                 }
-
-                *is_initialized = true;
             }
 
             local.slot as u8
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index 46222ae..a7b74c0 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -66,17 +66,16 @@ impl Compiler {
             .local(fn_name)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-        // NOTE: Check if a function of the given name has already been initialized.
+        // NOTE: Check if a function of the given name has already been initialized, or if the name refers to something else.
         match &mut local.state {
-            State::Function { ref mut is_initialized } if *is_initialized => {
+            State::Function { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+            _ => {
                 return Err(Error::new(FUNCTION_ALREADY_DECLARED)
                     .with_span(fn_decl.name.span)
                     .with_tags(tags! {
                         name => fn_decl.name.identifier.clone()
                     }));
             }
-            State::Function { ref mut is_initialized } => *is_initialized = true,
-            _ => unreachable!("Unexpected non-function local state while compiling a function."),
         }
 
         let slot = local.slot as u8;
-- 
2.43.0


From 5c2f2b8a739a29f5200ec112a6ceb299ecd0b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:28 +0000
Subject: [PATCH 13/28] fix: report super calls outside of methods instead of
 panicking

---
 dice-compiler/src/visitor/expr_super_call.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 18788ec..123789a 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,15 +1,22 @@
 use dice_core::{
-    error::Error,
+    error::{codes::INVALID_SUPER_CALL, Error},
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
 
-use crate::compiler::Compiler;
+use crate::{compiler::Compiler, compiler_stack::CompilerKind};
 
 use super::NodeVisitor;
 
 impl NodeVisitor<&SuperCall> for Compiler {
     fn visit(&mut self, node: &SuperCall) -> Result<(), Error> {
+        if !matches!(
+            self.context()?.kind(),
+            CompilerKind::Method { .. } | CompilerKind::Constructor
+        ) {
+            return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
+        }
+
         let local_slot = self
             .context()?
             .scope_stack()
-- 
2.43.0


From d60fccebcde8e2e64020edb67b341edbafb41ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:08 +0000
Subject: [PATCH 14/28] fix: support continue in for loops

---
 dice-compiler/src/scope_stack.rs             | 22 ++++++++++++++------
 dice-compiler/src/visitor/expr_continue.rs   | 10 +++++++--
 dice-compiler/src/visitor/expr_for.rs        |  3 +++
 dice-compiler/src/visitor/expr_range_loop.rs |  8 +++++--
 4 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 98504a3..b06354c 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -56,6 +56,7 @@ pub struct ScopeContext {
     pub kind: ScopeKind,
     pub entry_point: Option<usize>,
     pub exit_points: Vec<usize>,
+    pub continue_points: Vec<usize>,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
     slot_count: usize,
@@ -68,6 +69,7 @@ impl Default for ScopeContext {
             kind: ScopeKind::Block,
             entry_point: None,
             exit_points: Vec::new(),
+            continue_points: Vec::new(),
             variables: Vec::new(),
             call_context: Default::default(),
             slot_count: 0,
@@ -157,16 +159,24 @@ impl ScopeStack {
         Ok(())
     }
 
-    /// Get the entry point of the first scope to match the specified kind.
-    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<usize, Error> {
+    /// Push the bytecode location of a continue point to the inner most loop's scope, to later be patched.
+    pub fn add_loop_continue_point(&mut self, continue_point: usize) -> Result<(), Error> {
+        let scope = self
+            .first_of_kind_mut(ScopeKind::Loop)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
+
+        scope.continue_points.push(continue_point);
+
+        Ok(())
+    }
+
+    /// Get the entry point of the first scope to match the specified kind, if it can be jumped to directly.
+    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<Option<usize>, Error> {
         let scope = self
             .first_of_kind(kind)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-        scope
-            .entry_point
-            .clone()
-            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
+        Ok(scope.entry_point)
     }
 
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 2a54861..3cb0523 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,8 +10,14 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
-        let loop_start = context.scope_stack().entry_point(ScopeKind::Loop)?;
-        context.assembler().jump_back(loop_start as u64, *span);
+        match context.scope_stack().entry_point(ScopeKind::Loop)? {
+            Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
+            // NOTE: The loop has to advance before its next iteration, which happens after the body of the loop.
+            None => {
+                let patch_location = context.assembler().jump(*span);
+                context.scope_stack().add_loop_continue_point(patch_location as usize)?;
+            }
+        }
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 917561c..fa160ef 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -59,6 +59,9 @@ impl NodeVisitor<&ForLoop> for Compiler {
         emit_bytecode! {
             context.assembler(), for_loop.span => [
                 POP;
+                for continue_point in scope_context.continue_points => [
+                    PATCH_JUMP <- continue_point as u64;
+                ]
                 CLOSE_UPVALUES scope_context.variables;
                 JUMP_BACK loop_start;
             ]
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index eb406a9..36b3b92 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -55,18 +55,22 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         self.visit(range_loop.body)?;
 
         let context = self.context()?;
+        let scope_context = context.scope_stack().pop_scope()?;
+
         // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
         emit_bytecode! {
             context.assembler(), range_loop.span => [
                 POP;
+                for continue_point in scope_context.continue_points => [
+                    PATCH_JUMP <- continue_point as u64;
+                ]
                 LOAD_LOCAL variable_slot;
                 PUSH_I1;
                 ADD;
             ]
         }
 
-        // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
-        let scope_context = context.scope_stack().pop_scope()?;
+        // NOTE: Close out any upvalues at the end of the loop scope, before jumping back.
         emit_bytecode! {
             context.assembler(), range_loop.span => [
                 CLOSE_UPVALUES scope_context.variables;
-- 
2.43.0


From 0f8595564f73fc5427e6018f80d57e9c977c6fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:09 +0000
Subject: [PATCH 15/28] fix: keep the stack balanced when breaking out of an
 iterator loop

---
 dice-compiler/src/visitor/expr_for.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index fa160ef..5e68abc 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -67,8 +67,11 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
-        // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
+        // NOTE: When the iterator is done, its last result is still on the stack, unlike when exiting from the loop's body.
         context.assembler().patch_jump(loop_exit);
+        context.assembler().pop(for_loop.span);
+
+        // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
         for exit_point in scope_context.exit_points {
             context.assembler().patch_jump(exit_point as u64);
         }
@@ -76,7 +79,6 @@ impl NodeVisitor<&ForLoop> for Compiler {
         // NOTE: Clean up the temporaries stored on the stack and push a unit value.
         emit_bytecode! {
             context.assembler(), for_loop.span => [
-                POP;
                 POP;
                 PUSH_UNIT;
             ]
-- 
2.43.0


From e97a3002a5609fa9043d256b6d121b94a8e2815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:51 +0000
Subject: [PATCH 16/28] fix: discard unfinished expressions when leaving them
 early

---
 dice-compiler/src/compiler.rs                | 11 ++++++-
 dice-compiler/src/compiler_stack.rs          |  8 ++++++
 dice-compiler/src/scope_stack.rs             | 11 +++++++
 dice-compiler/src/visitor/expr_assignment.rs | 14 ++++-----
 dice-compiler/src/visitor/expr_binary_op.rs  |  4 +--
 dice-compiler/src/visitor/expr_break.rs      | 30 +++++++++++++++++---
 dice-compiler/src/visitor/expr_continue.rs   |  3 ++
 dice-compiler/src/visitor/expr_for.rs        | 11 ++++---
 dice-compiler/src/visitor/expr_loop.rs       |  6 ++--
 dice-compiler/src/visitor/expr_range_loop.rs | 14 ++++-----
 dice-compiler/src/visitor/expr_while.rs      |  6 ++--
 dice-compiler/src/visitor/literal_list.rs    |  4 +--
 dice-compiler/src/visitor/literal_object.rs  |  2 +-
 13 files changed, 85 insertions(+), 39 deletions(-)

diff --git a/dice-compiler/src/compiler.rs b/dice-compiler/src/compiler.rs
index f288c45..8a7a105 100644
--- a/dice-compiler/src/compiler.rs
+++ b/dice-compiler/src/compiler.rs
@@ -5,7 +5,7 @@ use dice_core::{
     source::{Source, SourceKind},
     span::Span,
 };
-use dice_syntax::{Parser, SyntaxTree};
+use dice_syntax::{Parser, SyntaxNodeId, SyntaxTree};
 
 use crate::{
     assembler::Assembler,
@@ -71,6 +71,15 @@ impl Compiler {
         self.compiler_stack.top_mut()
     }
 
+    /// Visit a node while the specified number of temporaries are kept on the stack by the expression it's a part of.
+    pub(super) fn visit_with_temporaries(&mut self, node: SyntaxNodeId, temporaries: usize) -> Result<(), Error> {
+        *self.context()?.temporary_count() += temporaries;
+        self.visit(node)?;
+        *self.context()?.temporary_count() -= temporaries;
+
+        Ok(())
+    }
+
     pub(super) fn assembler(&mut self) -> Result<&mut Assembler, Error> {
         Ok(self.compiler_stack.top_mut()?.assembler())
     }
diff --git a/dice-compiler/src/compiler_stack.rs b/dice-compiler/src/compiler_stack.rs
index ea46348..f285222 100644
--- a/dice-compiler/src/compiler_stack.rs
+++ b/dice-compiler/src/compiler_stack.rs
@@ -85,6 +85,14 @@ impl CompilerContext {
         &mut self.temporary_count
     }
 
+    /// Push the scope of a loop, keeping track of the temporaries that belong to the expressions the loop is a part of.
+    pub fn push_loop_scope(&mut self, entry_point: Option<usize>) -> Result<(), Error> {
+        self.scope_stack.push_scope(ScopeKind::Loop, entry_point);
+        self.scope_stack.top_mut()?.temporary_count = self.temporary_count;
+
+        Ok(())
+    }
+
     pub fn finish(mut self, source: Source) -> Bytecode {
         let slot_count = self.scope_stack.slot_count;
         let upvalue_count = self.upvalues().len();
diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index b06354c..389a82a 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -59,6 +59,7 @@ pub struct ScopeContext {
     pub continue_points: Vec<usize>,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
+    pub temporary_count: usize,
     slot_count: usize,
 }
 
@@ -72,6 +73,7 @@ impl Default for ScopeContext {
             continue_points: Vec::new(),
             variables: Vec::new(),
             call_context: Default::default(),
+            temporary_count: 0,
             slot_count: 0,
         }
     }
@@ -148,6 +150,15 @@ impl ScopeStack {
         self.stack.last_mut().ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
 
+    /// The number of temporaries on the stack when an iteration of the inner most loop starts.
+    pub fn loop_temporary_count(&self) -> Result<usize, Error> {
+        let scope = self
+            .first_of_kind(ScopeKind::Loop)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
+
+        Ok(scope.temporary_count)
+    }
+
     /// Push the bytecode location of an exit point to the inner most loop's scope, to later be patched.
     pub fn add_loop_exit_point(&mut self, exit_point: usize) -> Result<(), Error> {
         let scope = self
diff --git a/dice-compiler/src/visitor/expr_assignment.rs b/dice-compiler/src/visitor/expr_assignment.rs
index 9d1ea6b..3af8c2a 100644
--- a/dice-compiler/src/visitor/expr_assignment.rs
+++ b/dice-compiler/src/visitor/expr_assignment.rs
@@ -37,13 +37,13 @@ impl NodeVisitor<&Assignment> for Compiler {
 impl Compiler {
     fn assign_index(&mut self, target: Index, assignment: &Assignment) -> Result<(), Error> {
         self.visit(target.expression)?;
-        self.visit(target.index_expression)?;
+        self.visit_with_temporaries(target.index_expression, 1)?;
 
         match assignment.operator {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, assignment.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         ASSIGN_INDEX;
                     ]
                 }
@@ -54,7 +54,7 @@ impl Compiler {
                         DUP 1;
                         DUP 1;
                         LOAD_INDEX;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 3)?};
                         {self.visit_operator(operator, assignment.span)?};
                         ASSIGN_INDEX;
                     ]
@@ -72,7 +72,7 @@ impl Compiler {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, target.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 1)?};
                         STORE_FIELD target.field;
                     ]
                 }
@@ -82,7 +82,7 @@ impl Compiler {
                     self.assembler()?, target.span => [
                         DUP 0;
                         LOAD_FIELD &*target.field;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         {self.visit_operator(operator, target.span)?};
                         ASSIGN_FIELD target.field;
                     ]
@@ -150,7 +150,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_UPVALUE upvalue as u8;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_UPVALUE upvalue as u8;
                     ]
@@ -192,7 +192,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_LOCAL slot;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_LOCAL slot;
                     ]
diff --git a/dice-compiler/src/visitor/expr_binary_op.rs b/dice-compiler/src/visitor/expr_binary_op.rs
index c800423..c9f2060 100644
--- a/dice-compiler/src/visitor/expr_binary_op.rs
+++ b/dice-compiler/src/visitor/expr_binary_op.rs
@@ -91,7 +91,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(rhs_expression)?;
-        self.visit(lhs_expression)?;
+        self.visit_with_temporaries(lhs_expression, 1)?;
         self.assembler()?.call(1, span);
 
         Ok(())
@@ -129,7 +129,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(lhs_expression)?;
-        self.visit(rhs_expression)?;
+        self.visit_with_temporaries(rhs_expression, 1)?;
 
         match operator {
             BinaryOperator::Multiply => self.assembler()?.mul(span),
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 5f82642..92e54c6 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -1,19 +1,41 @@
 use super::NodeVisitor;
 use crate::{compiler::Compiler, scope_stack::ScopeKind};
-use dice_core::error::{codes::INVALID_BREAK_USAGE, Error};
+use dice_core::{
+    error::{codes::INVALID_BREAK_USAGE, Error},
+    span::Span,
+};
 use dice_syntax::Break;
 
 impl NodeVisitor<&Break> for Compiler {
     fn visit(&mut self, Break { span }: &Break) -> Result<(), Error> {
-        let context = self.context()?;
-
-        if !context.scope_stack().in_context_of(ScopeKind::Loop) {
+        if !self
+            .context()?
+            .scope_stack()
+            .in_context_of(ScopeKind::Loop)
+        {
             return Err(Error::new(INVALID_BREAK_USAGE).with_span(*span));
         }
 
+        self.visit_loop_cleanup(*span)?;
+
+        let context = self.context()?;
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
         Ok(())
     }
 }
+
+impl Compiler {
+    /// Remove everything from the stack that was left by unfinished expressions inside of the inner most loop.
+    pub(super) fn visit_loop_cleanup(&mut self, span: Span) -> Result<(), Error> {
+        let context = self.context()?;
+        let loop_temporary_count = context.scope_stack().loop_temporary_count()?;
+
+        for _ in loop_temporary_count..*context.temporary_count() {
+            context.assembler().pop(span);
+        }
+
+        Ok(())
+    }
+}
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 3cb0523..ae87af4 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,6 +10,9 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
+        self.visit_loop_cleanup(*span)?;
+
+        let context = self.context()?;
         match context.scope_stack().entry_point(ScopeKind::Loop)? {
             Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
             // NOTE: The loop has to advance before its next iteration, which happens after the body of the loop.
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 5e68abc..d8d750b 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -4,10 +4,7 @@ use dice_core::{
 };
 use dice_syntax::ForLoop;
 
-use crate::{
-    compiler::Compiler,
-    scope_stack::{ScopeKind, State},
-};
+use crate::{compiler::Compiler, scope_stack::State};
 
 use super::NodeVisitor;
 
@@ -32,8 +29,9 @@ impl NodeVisitor<&ForLoop> for Compiler {
         let loop_start = context.assembler().current_position();
         let loop_exit;
 
-        // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        // NOTE: Start a new scope and define the loop variable. The iterator stays on the stack while looping.
+        *context.temporary_count() += 1;
+        context.push_loop_scope(None)?;
         let variable_slot = context
             .scope_stack()
             .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
@@ -56,6 +54,7 @@ impl NodeVisitor<&ForLoop> for Compiler {
 
         // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
         let scope_context = context.scope_stack().pop_scope()?;
+        *context.temporary_count() -= 1;
         emit_bytecode! {
             context.assembler(), for_loop.span => [
                 POP;
diff --git a/dice-compiler/src/visitor/expr_loop.rs b/dice-compiler/src/visitor/expr_loop.rs
index d05af6a..caafa6d 100644
--- a/dice-compiler/src/visitor/expr_loop.rs
+++ b/dice-compiler/src/visitor/expr_loop.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{Loop, SyntaxNode};
 
@@ -9,9 +9,7 @@ impl NodeVisitor<&Loop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
-            self.context()?
-                .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+            self.context()?.push_loop_scope(Some(loop_start as usize))?;
 
             self.visit((&block, BlockKind::Loop))?;
             self.assembler()?.jump_back(loop_start, *span);
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index 36b3b92..1403996 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -1,8 +1,4 @@
-use crate::{
-    compiler::Compiler,
-    scope_stack::{ScopeKind, State},
-    visitor::NodeVisitor,
-};
+use crate::{compiler::Compiler, scope_stack::State, visitor::NodeVisitor};
 use dice_core::{error::Error, span::Span};
 use dice_syntax::{BinaryOperator, ForLoop, SyntaxNode, SyntaxNodeId};
 
@@ -25,14 +21,15 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         // NOTE: Evaluate the end of the range first as a temporary so that it doesn't have to be evaluated again.
         self.visit(range_loop.end)?;
         // NOTE: The start is then evaluated. It will get popped and re-pushed later when stored as a local.
-        self.visit(range_loop.start)?;
+        self.visit_with_temporaries(range_loop.start, 1)?;
 
         let context = self.context()?;
         let loop_start = context.assembler().current_position();
         let loop_exit;
 
-        // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        // NOTE: Start a new scope and define the loop variable. The end of the range stays on the stack while looping.
+        *context.temporary_count() += 1;
+        context.push_loop_scope(None)?;
         let variable_slot = context
             .scope_stack()
             .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
@@ -56,6 +53,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
 
         let context = self.context()?;
         let scope_context = context.scope_stack().pop_scope()?;
+        *context.temporary_count() -= 1;
 
         // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
         emit_bytecode! {
diff --git a/dice-compiler/src/visitor/expr_while.rs b/dice-compiler/src/visitor/expr_while.rs
index 8a48e63..b7f83be 100644
--- a/dice-compiler/src/visitor/expr_while.rs
+++ b/dice-compiler/src/visitor/expr_while.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{SyntaxNode, WhileLoop};
 
@@ -9,9 +9,7 @@ impl NodeVisitor<&WhileLoop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
-            self.context()?
-                .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+            self.context()?.push_loop_scope(Some(loop_start as usize))?;
             self.visit(*condition)?;
 
             let loop_end = self.assembler()?.jump_if_false(*span);
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index 5a8d988..b278674 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -5,8 +5,8 @@ use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
-        for item in value {
-            self.visit(*item)?;
+        for (index, item) in value.iter().enumerate() {
+            self.visit_with_temporaries(*item, index)?;
         }
 
         self.assembler()?.create_list(value.len() as u8, *span);
diff --git a/dice-compiler/src/visitor/literal_object.rs b/dice-compiler/src/visitor/literal_object.rs
index b9b82bc..b5376bb 100644
--- a/dice-compiler/src/visitor/literal_object.rs
+++ b/dice-compiler/src/visitor/literal_object.rs
@@ -9,7 +9,7 @@ impl NodeVisitor<&LitObject> for Compiler {
 
         for (field, value) in items {
             self.assembler()?.dup(0, *span);
-            self.visit(*value)?;
+            self.visit_with_temporaries(*value, 2)?;
             self.assembler()?.store_field(field.clone(), *span)?;
             self.assembler()?.pop(*span);
         }
-- 
2.43.0


From 725cdcd55241c410dacd07e11e67c5fb33a57cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:52 +0000
Subject: [PATCH 17/28] fix: close captured variables on every way of leaving
 their scope

---
 dice-compiler/src/scope_stack.rs           | 34 ++++++++++++++++++++++
 dice-compiler/src/visitor/expr_block.rs    | 22 ++++++++++++--
 dice-compiler/src/visitor/expr_break.rs    | 11 +++++--
 dice-compiler/src/visitor/expr_continue.rs |  2 +-
 4 files changed, 62 insertions(+), 7 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 389a82a..26d732f 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -159,6 +159,40 @@ impl ScopeStack {
         Ok(scope.temporary_count)
     }
 
+    /// The slots of the variables that may be captured when leaving the inner most loop, including its own variables or not.
+    pub fn loop_captured_slots(&self, includes_loop: bool) -> Vec<usize> {
+        let loop_index = self.stack.iter().rposition(|scope| scope.kind == ScopeKind::Loop);
+        let start = match loop_index {
+            Some(index) if includes_loop => index,
+            Some(index) => index + 1,
+            None => self.stack.len(),
+        };
+
+        Self::captured_slots(&self.stack[start..])
+    }
+
+    /// The slots of the variables that may be captured when leaving the current function.
+    pub fn function_captured_slots(&self) -> Vec<usize> {
+        let loop_index = self.stack.iter().rposition(|scope| scope.kind == ScopeKind::Loop);
+        let (outer, inner) = self.stack.split_at(loop_index.unwrap_or(0));
+
+        // NOTE: Variables outside of a loop may be captured by an iteration of it, even if the capture comes later in the code.
+        outer
+            .iter()
+            .flat_map(|scope| scope.variables.iter().map(|variable| variable.slot))
+            .chain(Self::captured_slots(inner))
+            .collect()
+    }
+
+    fn captured_slots(scopes: &[ScopeContext]) -> Vec<usize> {
+        scopes
+            .iter()
+            .flat_map(|scope| scope.variables.iter())
+            .filter(|variable| variable.is_captured)
+            .map(|variable| variable.slot)
+            .collect()
+    }
+
     /// Push the bytecode location of an exit point to the inner most loop's scope, to later be patched.
     pub fn add_loop_exit_point(&mut self, exit_point: usize) -> Result<(), Error> {
         let scope = self
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 62df36f..2dc9294 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -81,7 +81,6 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
         self.visit_args(&kind, kind.args())?;
         self.scan_item_decls(block)?;
         self.visit(block)?;
-        self.visit_close_upvalues(block)?;
 
         if let FunctionBlockKind::Function(_) | FunctionBlockKind::Method(_) = kind {
             self.visit_return(block.span)?
@@ -98,7 +97,7 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
                 self.assembler()?, block.span => [
                     POP;
                     LOAD_LOCAL local_slot;
-                    RET;
+                    {self.visit_return(block.span)?};
                 ]
             }
         }
@@ -184,6 +183,7 @@ impl Compiler {
             emit_bytecode! {
                 self.assembler()?, span => [
                     {self.visit(&return_type.name)?};
+                    {self.visit_close_function_upvalues(span)?};
                     if return_type.is_nullable => [
                         ASSERT_TYPE_OR_NULL_AND_RETURN;
                     ] else [
@@ -192,7 +192,23 @@ impl Compiler {
                 ]
             }
         } else {
-            self.assembler()?.ret(span)
+            emit_bytecode! {
+                self.assembler()?, span => [
+                    {self.visit_close_function_upvalues(span)?};
+                    RET;
+                ]
+            }
+        }
+
+        Ok(())
+    }
+
+    // NOTE: Closing a variable clears its slot, so everything that's still needed has to be on the stack already.
+    fn visit_close_function_upvalues(&mut self, span: Span) -> Result<(), Error> {
+        let context = self.context()?;
+
+        for slot in context.scope_stack().function_captured_slots() {
+            context.assembler().close_upvalue(slot as u8, span);
         }
 
         Ok(())
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 92e54c6..85b861a 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -16,7 +16,7 @@ impl NodeVisitor<&Break> for Compiler {
             return Err(Error::new(INVALID_BREAK_USAGE).with_span(*span));
         }
 
-        self.visit_loop_cleanup(*span)?;
+        self.visit_loop_cleanup(true, *span)?;
 
         let context = self.context()?;
         let patch_location = context.assembler().jump(*span);
@@ -27,8 +27,9 @@ impl NodeVisitor<&Break> for Compiler {
 }
 
 impl Compiler {
-    /// Remove everything from the stack that was left by unfinished expressions inside of the inner most loop.
-    pub(super) fn visit_loop_cleanup(&mut self, span: Span) -> Result<(), Error> {
+    /// Remove everything from the stack that was left by unfinished expressions inside of the inner most loop, and close
+    /// the captured variables of the scopes that are left.
+    pub(super) fn visit_loop_cleanup(&mut self, leaves_loop: bool, span: Span) -> Result<(), Error> {
         let context = self.context()?;
         let loop_temporary_count = context.scope_stack().loop_temporary_count()?;
 
@@ -36,6 +37,10 @@ impl Compiler {
             context.assembler().pop(span);
         }
 
+        for slot in context.scope_stack().loop_captured_slots(leaves_loop) {
+            context.assembler().close_upvalue(slot as u8, span);
+        }
+
         Ok(())
     }
 }
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index ae87af4..8ccc544 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,7 +10,7 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
-        self.visit_loop_cleanup(*span)?;
+        self.visit_loop_cleanup(false, *span)?;
 
         let context = self.context()?;
         match context.scope_stack().entry_point(ScopeKind::Loop)? {
-- 
2.43.0


From e8573e83b0a78fce6e16e8899cd976d59500a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:53 +0000
Subject: [PATCH 18/28] fix: evaluate the operand of a nullable type test only
 once

---
 dice-compiler/src/visitor/expr_is.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_is.rs b/dice-compiler/src/visitor/expr_is.rs
index 13a1a10..4d8d862 100644
--- a/dice-compiler/src/visitor/expr_is.rs
+++ b/dice-compiler/src/visitor/expr_is.rs
@@ -7,19 +7,26 @@ impl NodeVisitor<&Is> for Compiler {
     fn visit(&mut self, Is { value, type_, span }: &Is) -> Result<(), Error> {
         if type_.is_nullable {
             // TODO: Replace this with an IS_TYPE_OR_NULL instruction.
-            let type_check_jump;
+            let null_jump;
             emit_bytecode! {
                 self.assembler()?, *span => [
                     {self.visit(*value)?};
+                    DUP 0;
                     PUSH_NULL;
                     EQ;
-                    DUP 0;
-                    JUMP_IF_TRUE -> type_check_jump;
-                    POP;
-                    {self.visit(*value)?};
+                    JUMP_IF_TRUE -> null_jump;
                     {self.visit(&type_.name)?};
                     IS;
-                    PATCH_JUMP <- type_check_jump;
+                ]
+            }
+
+            let end_jump = self.assembler()?.jump(*span);
+            emit_bytecode! {
+                self.assembler()?, *span => [
+                    PATCH_JUMP <- null_jump;
+                    POP;
+                    PUSH_BOOL true;
+                    PATCH_JUMP <- end_jump;
                 ]
             }
         } else {
-- 
2.43.0


From 5787d84abc14d11dc790cd481cb6df772c6d2cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:53 +0000
Subject: [PATCH 19/28] fix: end a null-propagating chain at the expression it
 belongs to

---
 dice-compiler/src/visitor/syntax_node.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 39228bb..a995ec8 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -10,6 +10,23 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
     fn visit(&mut self, node: SyntaxNodeId) -> Result<(), Error> {
         let node = self.syntax_tree.get(node).clone();
 
+        // NOTE: Any other expression interrupts a call chain, so call chains inside of it short-circuit only inside of it.
+        let is_call_chain = matches!(
+            node,
+            SyntaxNode::NullPropagate(_)
+                | SyntaxNode::ErrorPropagate(_)
+                | SyntaxNode::FieldAccess(_)
+                | SyntaxNode::SuperAccess(_)
+                | SyntaxNode::FnCall(_)
+                | SyntaxNode::SuperCall(_)
+                | SyntaxNode::Index(_)
+        );
+        let outer_call_context = if is_call_chain {
+            None
+        } else {
+            Some(std::mem::take(&mut self.context()?.scope_stack().top_mut()?.call_context))
+        };
+
         match &node {
             SyntaxNode::LitIdent(literal) => self.visit(literal)?,
             SyntaxNode::LitUnit(literal) => self.visit(literal)?,
@@ -76,6 +93,10 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
             }
         }
 
+        if let Some(call_context) = outer_call_context {
+            self.context()?.scope_stack().top_mut()?.call_context = call_context;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 7e164c88d2afc55ad56621069c1bb6c1c13258c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:05 +0000
Subject: [PATCH 20/28] fix: let destructured variables be mutable

---
 dice-compiler/src/visitor/decl_var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 934efb5..087daeb 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -52,7 +52,7 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))?;
 
                 Ok((item.as_str(), slot as u8))
             })
-- 
2.43.0


From d25033dbfa2a666e1821c4cd5f02fc712decc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:47 +0000
Subject: [PATCH 21/28] fix: end the iteration of inclusive ranges in the
 prelude

---
 data/scripts/prelude.dm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/scripts/prelude.dm b/data/scripts/prelude.dm
index 0d90317..aad1eb8 100644
--- a/data/scripts/prelude.dm
+++ b/data/scripts/prelude.dm
@@ -35,9 +35,9 @@ export class RangeInclusive {
         #{
             next: || {
                 let result = if current <= self.end {
-                    #{ value: current, done: false }
+                    #{ value: current, is_done: false }
                 } else {
-                    #{ done: true }
+                    #{ is_done: true }
                 }
 
                 current += 1
-- 
2.43.0


From 084720f433d08f3cafad76a1d5c1c175309a39b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:47 +0000
Subject: [PATCH 22/28] fix: reject calls and operators with more arguments
 than can be encoded

---
 dice-syntax/src/parser/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 76a0712..13540e8 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -479,6 +479,13 @@ impl<'a> Parser<'a> {
             )?,
         };
         let args = self.parse_args(TokenKind::LeftParen, TokenKind::RightParen)?;
+
+        if args.len() > (u8::MAX as usize) {
+            return Err(Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS)
+                .with_source(self.source.clone())
+                .with_span(span_start + self.lexer.current().span));
+        }
+
         let return_ = self.parse_return()?;
         let body = self.block_expression(false)?;
         let span_end = self.lexer.current().span;
@@ -892,6 +899,13 @@ impl<'a> Parser<'a> {
         }
 
         let span_end = self.lexer.current().span;
+
+        if args.len() > (u8::MAX as usize) {
+            return Err(Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS)
+                .with_source(self.source.clone())
+                .with_span(span_start + span_end));
+        }
+
         let node = SyntaxNode::FnCall(FnCall {
             target: lhs,
             args,
@@ -919,6 +933,13 @@ impl<'a> Parser<'a> {
         }
 
         let span_end = self.lexer.consume(TokenKind::RightParen)?.span;
+
+        if args.len() > (u8::MAX as usize) {
+            return Err(Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS)
+                .with_source(self.source.clone())
+                .with_span(span_start + span_end));
+        }
+
         let node = SyntaxNode::SuperCall(SuperCall {
             args,
             span: span_start + span_end,
-- 
2.43.0


From 7a4dd2a05cf36e2dafc66b8786b41c0d8ce9be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:17 +0000
Subject: [PATCH 23/28] fix: reject programs beyond the limits of the bytecode
 encoding

---
 data/locales/en-US/errors.ftl                 |  3 ++
 dice-compiler/src/assembler.rs                | 29 ++++++++++++++-----
 dice-compiler/src/compiler.rs                 |  2 +-
 dice-compiler/src/compiler_stack.rs           |  2 +-
 dice-compiler/src/decl_scan.rs                | 10 +++++--
 dice-compiler/src/scope_stack.rs              | 10 ++++++-
 dice-compiler/src/visitor/decl_class.rs       |  5 ++--
 dice-compiler/src/visitor/decl_fn.rs          |  6 ++--
 dice-compiler/src/visitor/decl_import.rs      |  8 +++--
 dice-compiler/src/visitor/decl_op.rs          |  4 +--
 dice-compiler/src/visitor/decl_var.rs         |  8 +++--
 dice-compiler/src/visitor/expr_for.rs         |  5 ++--
 dice-compiler/src/visitor/expr_range_loop.rs  |  8 +++--
 .../src/visitor/literal_anonymous_fn.rs       |  4 +--
 dice-compiler/src/visitor/literal_list.rs     |  6 +++-
 dice-core/src/error/codes.rs                  |  3 ++
 16 files changed, 81 insertions(+), 32 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index 929c5e7..e6c7c94 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -15,6 +15,9 @@ E2000 = Internal Compiler Error (please report this as a bug with code to reprod
 
 E2100 = The maximum number of upvalues (256) has been exceeded for this compilation unit.
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
+E2102 = The maximum number of local variables (256) has been exceeded for this function.
+E2103 = List has too many items (max: 255).
+E2104 = The code is too large to be jumped over.
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/assembler.rs b/dice-compiler/src/assembler.rs
index b034ee5..df1627e 100644
--- a/dice-compiler/src/assembler.rs
+++ b/dice-compiler/src/assembler.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use bytes::BufMut as _;
 
@@ -6,7 +6,7 @@ use dice_bytecode::Instruction;
 use dice_bytecode::{Bytecode, ConstantValue};
 use dice_core::{
     error::{
-        codes::{TOO_MANY_CONSTANTS, TOO_MANY_UPVALUES},
+        codes::{JUMP_TOO_LARGE, TOO_MANY_CONSTANTS, TOO_MANY_UPVALUES},
         Error,
     },
     source::Source,
@@ -19,6 +19,7 @@ pub struct Assembler {
     constants: Vec<ConstantValue>,
     source_map: HashMap<u64, Span>,
     data: Vec<u8>,
+    has_jump_overflow: bool,
 }
 
 impl Assembler {
@@ -27,18 +28,23 @@ impl Assembler {
             constants: Default::default(),
             source_map: Default::default(),
             data: Default::default(),
+            has_jump_overflow: false,
         }
     }
 
-    pub fn generate(self, slot_count: usize, upvalue_count: usize, _source: Source) -> Bytecode {
-        Bytecode::new(
+    pub fn generate(self, slot_count: usize, upvalue_count: usize, _source: Source) -> Result<Bytecode, Error> {
+        if self.has_jump_overflow {
+            return Err(Error::new(JUMP_TOO_LARGE));
+        }
+
+        Ok(Bytecode::new(
             self.data.into(),
             slot_count,
             upvalue_count,
             self.constants.into_boxed_slice(),
             // source,
             // self.source_map,
-        )
+        ))
     }
 
     pub fn push_null(&mut self, span: Span) {
@@ -260,17 +266,26 @@ impl Assembler {
     }
 
     pub fn patch_jump(&mut self, jump_position: u64) {
-        let offset = (self.current_position() - jump_position - 2) as i16;
+        let offset = self.current_position() as i64 - jump_position as i64 - 2;
+        let offset = self.encode_offset(offset);
         (&mut self.data[jump_position as usize..]).put_i16(offset)
     }
 
     pub fn jump_back(&mut self, position: u64, span: Span) {
         self.source_map.insert(self.data.len() as u64, span);
         self.data.put_u8(Instruction::Jump.into());
-        let offset = -((self.current_position() - position + 2) as i16);
+        let offset = position as i64 - self.current_position() as i64 - 2;
+        let offset = self.encode_offset(offset);
         self.data.put_i16(offset);
     }
 
+    fn encode_offset(&mut self, offset: i64) -> i16 {
+        i16::try_from(offset).unwrap_or_else(|_| {
+            self.has_jump_overflow = true;
+            0
+        })
+    }
+
     pub fn current_position(&self) -> u64 {
         (self.data.len()) as u64
     }
diff --git a/dice-compiler/src/compiler.rs b/dice-compiler/src/compiler.rs
index 8a7a105..9201687 100644
--- a/dice-compiler/src/compiler.rs
+++ b/dice-compiler/src/compiler.rs
@@ -64,7 +64,7 @@ impl Compiler {
 
         let compiler_context = self.compiler_stack.pop()?;
 
-        Ok(compiler_context.finish(self.source.clone()))
+        compiler_context.finish(self.source.clone())
     }
 
     pub(super) fn context(&mut self) -> Result<&mut CompilerContext, Error> {
diff --git a/dice-compiler/src/compiler_stack.rs b/dice-compiler/src/compiler_stack.rs
index f285222..e7c591d 100644
--- a/dice-compiler/src/compiler_stack.rs
+++ b/dice-compiler/src/compiler_stack.rs
@@ -93,7 +93,7 @@ impl CompilerContext {
         Ok(())
     }
 
-    pub fn finish(mut self, source: Source) -> Bytecode {
+    pub fn finish(mut self, source: Source) -> Result<Bytecode, Error> {
         let slot_count = self.scope_stack.slot_count;
         let upvalue_count = self.upvalues().len();
         self.assembler.generate(slot_count, upvalue_count, source)
diff --git a/dice-compiler/src/decl_scan.rs b/dice-compiler/src/decl_scan.rs
index 07a16cf..c7be5e9 100644
--- a/dice-compiler/src/decl_scan.rs
+++ b/dice-compiler/src/decl_scan.rs
@@ -1,5 +1,5 @@
 use crate::{compiler::Compiler, scope_stack::State};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt};
 use dice_syntax::{Block, ClassDecl, FnDecl, SyntaxNode, SyntaxNodeId};
 
 impl Compiler {
@@ -37,19 +37,23 @@ impl Compiler {
     }
 
     fn scan_fn_decl(&mut self, fn_decl: FnDecl) -> Result<(), Error> {
+        let span = fn_decl.span;
         let name = fn_decl.name.identifier;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Function { is_initialized: false })?;
+            .add_local(name, State::Function { is_initialized: false })
+            .with_span(|| span)?;
 
         Ok(())
     }
 
     fn scan_class_decl(&mut self, class_decl: ClassDecl) -> Result<(), Error> {
+        let span = class_decl.span;
         let name = class_decl.name.identifier;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Class { is_initialized: false })?;
+            .add_local(name, State::Class { is_initialized: false })
+            .with_span(|| span)?;
 
         Ok(())
     }
diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 26d732f..360d235 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -1,4 +1,7 @@
-use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
+use dice_core::error::{
+    codes::{INTERNAL_COMPILER_ERROR, TOO_MANY_LOCALS},
+    Error,
+};
 
 #[derive(Clone)]
 pub struct ScopeVariable {
@@ -121,6 +124,11 @@ impl ScopeStack {
 
         let slot_count = self.stack.iter().rev().map(|scope| scope.slot_count).sum();
         let slot = slot_count - 1;
+
+        if slot > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_LOCALS));
+        }
+
         let local = ScopeVariable {
             name,
             slot,
diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index 6600bbd..ac65f59 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -4,7 +4,7 @@ use dice_core::{
             CLASS_ALREADY_DECLARED, INTERNAL_COMPILER_ERROR, METHOD_RECEIVER_CANNOT_HAVE_TYPE,
             NEW_METHOD_MUST_HAVE_RECEIVER, OPERATOR_MUST_HAVE_RECEIVER,
         },
-        Error,
+        Error, ResultExt,
     },
     protocol::{
         class::{NEW, SELF, SUPER},
@@ -38,7 +38,8 @@ impl NodeVisitor<&ClassDecl> for Compiler {
         let super_slot = self
             .context()?
             .scope_stack()
-            .add_local(SUPER, State::initialized(true))? as u8;
+            .add_local(SUPER, State::initialized(true))
+            .with_span(|| node.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, node.span => [
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index a7b74c0..237e732 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -4,7 +4,7 @@ use dice_bytecode::{ConstantValue, FunctionBytecode};
 use dice_core::{
     error::{
         codes::{FUNCTION_ALREADY_DECLARED, FUNCTION_CANNOT_HAVE_DUPLICATE_ARGS, INTERNAL_COMPILER_ERROR},
-        Error,
+        Error, ResultExt,
     },
     span::Span,
     tags,
@@ -22,7 +22,9 @@ impl NodeVisitor<(&FnDecl, FnKind)> for Compiler {
         let body = self.syntax_tree.child(fn_decl.body);
         let mut fn_context = self.compile_fn(body, &fn_decl.args, fn_decl.return_.clone(), fn_kind)?;
         let upvalues = fn_context.upvalues().clone();
-        let bytecode = fn_context.finish(self.source.clone());
+        let bytecode = fn_context
+            .finish(self.source.clone())
+            .with_span(|| fn_decl.span)?;
         let compiled_fn = ConstantValue::Function(FunctionBytecode::new(
             bytecode,
             &*fn_decl.name.identifier,
diff --git a/dice-compiler/src/visitor/decl_import.rs b/dice-compiler/src/visitor/decl_import.rs
index 236c333..3950fab 100644
--- a/dice-compiler/src/visitor/decl_import.rs
+++ b/dice-compiler/src/visitor/decl_import.rs
@@ -1,5 +1,5 @@
 use crate::{compiler::Compiler, scope_stack::State, visitor::NodeVisitor};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt};
 use dice_syntax::ImportDecl;
 
 impl NodeVisitor<&ImportDecl> for Compiler {
@@ -11,7 +11,8 @@ impl NodeVisitor<&ImportDecl> for Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(false))
+                    .with_span(|| node.span)?;
 
                 Ok((item.as_str(), slot as u8))
             })
@@ -34,7 +35,8 @@ impl NodeVisitor<&ImportDecl> for Compiler {
             let module_slot = self
                 .context()?
                 .scope_stack()
-                .add_local(module_import.clone(), State::initialized(false))?;
+                .add_local(module_import.clone(), State::initialized(false))
+                .with_span(|| node.span)?;
 
             self.assembler()?.store_local(module_slot as u8, node.span);
         }
diff --git a/dice-compiler/src/visitor/decl_op.rs b/dice-compiler/src/visitor/decl_op.rs
index d8904e4..2752396 100644
--- a/dice-compiler/src/visitor/decl_op.rs
+++ b/dice-compiler/src/visitor/decl_op.rs
@@ -1,6 +1,6 @@
 use dice_bytecode::{ConstantValue, FunctionBytecode};
 use dice_core::{
-    error::Error,
+    error::{Error, ResultExt},
     protocol::operator::{ADD, DIV, EQ, GT, GTE, LT, LTE, MUL, NEQ, RANGE_EXCLUSIVE, RANGE_INCLUSIVE, REM, SUB},
 };
 use dice_syntax::{OpDecl, OverloadedOperator};
@@ -28,7 +28,7 @@ impl NodeVisitor<(&OpDecl, OpKind)> for Compiler {
         let name = Compiler::op_name(node);
 
         let upvalues = op_context.upvalues().clone();
-        let bytecode = op_context.finish(self.source.clone());
+        let bytecode = op_context.finish(self.source.clone()).with_span(|| node.span)?;
         let value = ConstantValue::Function(FunctionBytecode::new(bytecode, name, uuid::Uuid::new_v4()));
 
         match kind {
diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 087daeb..3f0b64c 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -1,6 +1,6 @@
 use super::NodeVisitor;
 use crate::{compiler::Compiler, scope_stack::State};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt};
 use dice_syntax::{VarDecl, VarDeclKind};
 
 impl NodeVisitor<&VarDecl> for Compiler {
@@ -19,7 +19,8 @@ impl Compiler {
         let slot = self
             .context()?
             .scope_stack()
-            .add_local(name, State::initialized(var_decl.is_mutable))? as u8;
+            .add_local(name, State::initialized(var_decl.is_mutable))
+            .with_span(|| var_decl.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, var_decl.span => [
@@ -52,7 +53,8 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))?;
+                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))
+                    .with_span(|| var_decl.span)?;
 
                 Ok((item.as_str(), slot as u8))
             })
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index d8d750b..5092385 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -1,5 +1,5 @@
 use dice_core::{
-    error::Error,
+    error::{Error, ResultExt},
     protocol::iterator::{DONE, ITER, NEXT, VALUE},
 };
 use dice_syntax::ForLoop;
@@ -34,7 +34,8 @@ impl NodeVisitor<&ForLoop> for Compiler {
         context.push_loop_scope(None)?;
         let variable_slot = context
             .scope_stack()
-            .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
+            .add_local(for_loop.variable.clone(), State::initialized(false))
+            .with_span(|| for_loop.span)? as u8;
 
         emit_bytecode! {
             context.assembler(), for_loop.span => [
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index 1403996..75aa7a2 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -1,5 +1,8 @@
 use crate::{compiler::Compiler, scope_stack::State, visitor::NodeVisitor};
-use dice_core::{error::Error, span::Span};
+use dice_core::{
+    error::{Error, ResultExt},
+    span::Span,
+};
 use dice_syntax::{BinaryOperator, ForLoop, SyntaxNode, SyntaxNodeId};
 
 enum RangeLoopKind {
@@ -32,7 +35,8 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         context.push_loop_scope(None)?;
         let variable_slot = context
             .scope_stack()
-            .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
+            .add_local(range_loop.variable.clone(), State::initialized(false))
+            .with_span(|| range_loop.span)? as u8;
 
         // NOTE: Store the start condition and duplicate the end condition, to be consumed by the loop condition.
         // This effectively reverses the order of the end and start conditions on the stack.
diff --git a/dice-compiler/src/visitor/literal_anonymous_fn.rs b/dice-compiler/src/visitor/literal_anonymous_fn.rs
index ab35579..d01ac07 100644
--- a/dice-compiler/src/visitor/literal_anonymous_fn.rs
+++ b/dice-compiler/src/visitor/literal_anonymous_fn.rs
@@ -1,5 +1,5 @@
 use dice_bytecode::{ConstantValue, FunctionBytecode};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt};
 use dice_syntax::LitAnonymousFn;
 
 use crate::{compiler::Compiler, visitor::FnKind};
@@ -13,7 +13,7 @@ impl NodeVisitor<&LitAnonymousFn> for Compiler {
         let body = self.syntax_tree.child(node.body);
         let mut fn_context = self.compile_fn(body, &node.args, node.return_.clone(), FnKind::Function)?;
         let upvalues = fn_context.upvalues().clone();
-        let bytecode = fn_context.finish(self.source.clone());
+        let bytecode = fn_context.finish(self.source.clone()).with_span(|| node.span)?;
         let value = ConstantValue::Function(FunctionBytecode::new(bytecode, name, id));
         let context = self.context()?;
 
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index b278674..0c10a6c 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -1,10 +1,14 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::TOO_MANY_LIST_ITEMS, Error};
 use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
+        if value.len() > (u8::MAX as usize) {
+            return Err(Error::new(TOO_MANY_LIST_ITEMS).with_span(*span));
+        }
+
         for (index, item) in value.iter().enumerate() {
             self.visit_with_temporaries(*item, index)?;
         }
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 6f240f7..9a28af0 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -17,6 +17,9 @@ pub static INTERNAL_COMPILER_ERROR: ErrorCode = "E2000";
 
 pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
+pub static TOO_MANY_LOCALS: ErrorCode = "E2102";
+pub static TOO_MANY_LIST_ITEMS: ErrorCode = "E2103";
+pub static JUMP_TOO_LARGE: ErrorCode = "E2104";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From 08f1fe2d8f88e8a322289caaabc6560f067b705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:05 +0000
Subject: [PATCH 24/28] fix: include the line an empty span starts on

---
 dice-core/src/source.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dice-core/src/source.rs b/dice-core/src/source.rs
index 42bd0be..29d0aae 100644
--- a/dice-core/src/source.rs
+++ b/dice-core/src/source.rs
@@ -168,7 +168,8 @@ impl LineIndex {
     /// Get the entirety of all lines that contain the provided span.
     pub fn lines(&self, span: Span) -> impl Iterator<Item = Span> + '_ {
         let mut start_line = partition_point(&self.newlines, |&it| it <= span.start);
-        let mut end_line = partition_point(&self.newlines, |&it| it < span.end);
+        // NOTE: An empty span still belongs to the line it starts on.
+        let mut end_line = partition_point(&self.newlines, |&it| it <= span.start || it < span.end);
 
         // NOTE: If the start line is not the first line, subtract 1 to get the start of the current line.
         if start_line != 0 {
-- 
2.43.0


From aa5a3383c361490f51f52aac786765503125e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:05 +0000
Subject: [PATCH 25/28] fix: number each line of a trace excerpt by itself

---
 dice-core/src/error/fmt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dice-core/src/error/fmt.rs b/dice-core/src/error/fmt.rs
index 75fb5e8..d1a3d90 100644
--- a/dice-core/src/error/fmt.rs
+++ b/dice-core/src/error/fmt.rs
@@ -152,6 +152,7 @@ impl HumanReadableErrorFormatter {
                 }
 
                 for line in trace.source.line_index().lines(trace.span) {
+                    let position = trace.source.line_index().position_of(line.start);
                     writeln!(
                         buffer,
                         "    {:<4} | {}",
-- 
2.43.0


From f250a7eaa3d4f3beda2e037c4d7268dacfd1f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:19 +0000
Subject: [PATCH 26/28] fix: give every error code its own number and message

---
 data/locales/en-US/errors.ftl | 4 +++-
 dice-core/src/error/codes.rs  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index e6c7c94..421879f 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -73,4 +73,6 @@ E3402 = Classes cannot inherit from value types.
 # System errors
 E4000 = A panic has occurred. {$message}
 E4001 = IO error occurred. {$message}
-E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
\ No newline at end of file
+E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
+E4003 = The module is already loaded.
+E4004 = The global variable is already defined.
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 9a28af0..50c6b4a 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -76,4 +76,4 @@ pub static PANIC: ErrorCode = "E4000";
 pub static IO_ERROR: ErrorCode = "E4001";
 pub static INVALID_SCRIPT_LOCATION: ErrorCode = "E4002";
 pub static MODULE_ALREADY_EXISTS: ErrorCode = "E4003";
-pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4002";
+pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4004";
-- 
2.43.0


From d28f456c6e7eb8cd708673de4a5d728682bd1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 27/28] fix: reject anonymous functions with duplicate
 parameters

---
 dice-compiler/src/visitor/literal_anonymous_fn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dice-compiler/src/visitor/literal_anonymous_fn.rs b/dice-compiler/src/visitor/literal_anonymous_fn.rs
index d01ac07..219f2a0 100644
--- a/dice-compiler/src/visitor/literal_anonymous_fn.rs
+++ b/dice-compiler/src/visitor/literal_anonymous_fn.rs
@@ -8,6 +8,8 @@ use super::NodeVisitor;
 
 impl NodeVisitor<&LitAnonymousFn> for Compiler {
     fn visit(&mut self, node: &LitAnonymousFn) -> Result<(), Error> {
+        Self::assert_unique_params(&node.args, node.span)?;
+
         let id = uuid::Uuid::new_v4();
         let name = format!("__anonymous_fn_{id}");
         let body = self.syntax_tree.child(node.body);
-- 
2.43.0


From ac33285dbe499d05ce1676a07497a8793d6aefb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:44 +0000
Subject: [PATCH 28/28] fix: derive classes from the global root class whatever
 names are in scope

---
 dice-compiler/src/visitor/decl_class.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index ac65f59..b2e7f99 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -12,7 +12,7 @@ use dice_core::{
     },
     tags,
 };
-use dice_syntax::{ClassDecl, FnDecl, LitIdent, OpDecl, SyntaxNode};
+use dice_syntax::{ClassDecl, FnDecl, OpDecl, SyntaxNode};
 
 use crate::{
     compiler::Compiler,
@@ -28,10 +28,8 @@ impl NodeVisitor<&ClassDecl> for Compiler {
             self.visit(base)?;
             ClassKind::Derived
         } else {
-            self.visit(&LitIdent {
-                identifier: ANY_CLASS.to_owned(),
-                span: node.span,
-            })?;
+            // NOTE: The root of all classes is always the global one, whatever names are declared in the current scope.
+            self.assembler()?.load_global(ANY_CLASS, node.span)?;
             ClassKind::Base
         };
 
-- 
2.43.0

