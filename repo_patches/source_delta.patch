From 4c17cec7766baa0f8aa531fa82085e759fd1b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 01/43] fix: print the star of generator functions and methods

---
 ratel-codegen/src/expression.rs |  3 +++
 ratel-codegen/src/function.rs   | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 4796e5e..d476844 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -97,6 +97,9 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 ref key,
                 ref value,
             } => {
+                if value.generator {
+                    gen.write_byte(b'*');
+                }
                 gen.write(key);
                 gen.write(value);
             },
diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index c9e23f8..b13c9a2 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -30,6 +30,9 @@ impl<'ast, G: Generator> ToCode<G> for OptionalName<'ast> {
 }
 
 pub trait ClassFunctionDeclaration<G: Generator> {
+    /// Methods have no `function` keyword, their `*` precedes the key
+    const HAS_KEYWORD: bool = true;
+
     #[inline]
     fn write_class(gen: &mut G) {
         gen.write_bytes(b"class");
@@ -42,6 +45,8 @@ pub trait ClassFunctionDeclaration<G: Generator> {
 }
 
 impl<G: Generator> ClassFunctionDeclaration<G> for EmptyName {
+    const HAS_KEYWORD: bool = false;
+
     #[inline]
     fn write_class(_: &mut G) {}
 
@@ -59,6 +64,9 @@ impl<'ast, G, N> ToCode<G> for Function<'ast, N> where
     #[inline]
     fn to_code(&self, gen: &mut G) {
         N::write_function(gen);
+        if self.generator && N::HAS_KEYWORD {
+            gen.write_byte(b'*');
+        }
         gen.write(&self.name);
         gen.write_byte(b'(');
         gen.write_list(&self.params);
@@ -89,6 +97,9 @@ impl<'ast, G: Generator> ToCode<G> for ClassMember<'ast> {
                     MethodKind::Set => gen.write_bytes(b"set "),
                     _               => {},
                 }
+                if value.generator {
+                    gen.write_byte(b'*');
+                }
                 gen.write(key);
                 gen.write(value);
             },
-- 
2.43.0


From 8b7a95e56ac4c77b4b563ac31b45534988137e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 02/43] fix: print the finally keyword of try statements

---
 ratel-codegen/src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 134d26a..a402ca5 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -257,6 +257,8 @@ impl<'ast, G: Generator> ToCode<G> for TryStatement<'ast> {
             gen.write(&handler.body);
         }
         if let Some(ref finalizer) = self.finalizer {
+            gen.write_pretty(b' ');
+            gen.write_bytes(b"finally");
             gen.write_pretty(b' ');
             gen.write(finalizer);
         }
-- 
2.43.0


From f7248e7edf1f62c7f373fbb3d9b8991cd158974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 03/43] fix: print an empty statement that is the body of
 another statement

---
 ratel-codegen/src/statement.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index a402ca5..d7acf1a 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -1,4 +1,4 @@
-use ratel::ast::{Statement, Declarator, DeclarationKind};
+use ratel::ast::{Statement, StatementNode, Declarator, DeclarationKind};
 use ratel::ast::statement::*;
 
 use {ToCode, Generator};
@@ -50,6 +50,16 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
     }
 }
 
+/// Write a statement in a position where exactly one statement is required,
+/// an empty one cannot be left out there.
+#[inline]
+fn write_body<'ast, G: Generator>(gen: &mut G, body: &StatementNode<'ast>) {
+    match body.item {
+        Statement::Empty => gen.write_byte(b';'),
+        _                => gen.write(body),
+    }
+}
+
 impl<G: Generator> ToCode<G> for DeclarationKind {
     #[inline]
     fn to_code(&self, gen: &mut G) {
@@ -131,7 +141,7 @@ impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {
         gen.write(&self.test);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.consequent);
+        write_body(gen, &self.consequent);
 
         if let Some(ref alternate) = self.alternate {
             if self.consequent.is_block() {
@@ -145,7 +155,7 @@ impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {
             } else {
                 gen.write_byte(b' ');
             }
-            gen.write(alternate);
+            write_body(gen, alternate);
         }
     }
 }
@@ -159,7 +169,7 @@ impl<'ast, G: Generator> ToCode<G> for WhileStatement<'ast> {
         gen.write(&self.test);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
@@ -172,7 +182,7 @@ impl<'ast, G: Generator> ToCode<G> for DoStatement<'ast> {
         } else {
             gen.write_byte(b' ');
         }
-        gen.write(&self.body);
+        write_body(gen, &self.body);
         gen.write_bytes(b"while");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
@@ -206,7 +216,7 @@ impl<'ast, G: Generator> ToCode<G> for ForStatement<'ast> {
         gen.write(&self.update);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
@@ -221,7 +231,7 @@ impl<'ast, G: Generator> ToCode<G> for ForInStatement<'ast> {
         gen.write(&self.right);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
@@ -236,7 +246,7 @@ impl<'ast, G: Generator> ToCode<G> for ForOfStatement<'ast> {
         gen.write(&self.right);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
@@ -271,7 +281,7 @@ impl<'ast, G: Generator> ToCode<G> for LabeledStatement<'ast> {
         gen.write(&self.label);
         gen.write_byte(b':');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
-- 
2.43.0


From d84548c9e55f0a66e6047996d4884ee7f1280ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 04/43] fix: parenthesise operands that would otherwise be
 parsed differently

---
 ratel-codegen/src/expression.rs | 57 ++++++++++++++++++++++-----------
 ratel-codegen/src/function.rs   |  6 ++--
 ratel-codegen/src/lib.rs        | 36 +++++++++++++++++++--
 ratel-codegen/src/statement.rs  | 14 +++-----
 ratel/src/ast/expression.rs     | 22 +++++++++++--
 ratel/src/ast/operator.rs       |  6 ++--
 6 files changed, 102 insertions(+), 39 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index d476844..540dfa7 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Expression, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
 use ratel::ast::expression::*;
 
-use {ToCode, Generator};
+use {ToCode, Generator, ASSIGNMENT};
 
 
 impl<'ast, G: Generator> ToCode<G> for Expression<'ast> {
@@ -68,7 +68,7 @@ impl<'ast, G: Generator> ToCode<G> for PropertyKey<'ast> {
         match *self {
             Computed(ref val) => {
                 gen.write_byte(b'[');
-                gen.write(val);
+                gen.write_expression(val, ASSIGNMENT);
                 gen.write_byte(b']');
             },
             Literal(ref val) => gen.write(val),
@@ -91,7 +91,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 gen.write(key);
                 gen.write_byte(b':');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, ASSIGNMENT);
             },
             Method {
                 ref key,
@@ -107,7 +107,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 ref argument
             } => {
                 gen.write_bytes(b"...");
-                gen.write(argument);
+                gen.write_expression(argument, ASSIGNMENT);
             }
         }
     }
@@ -116,7 +116,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
 impl<'ast, G: Generator> ToCode<G> for SequenceExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
     }
 }
 
@@ -124,7 +124,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_byte(b'[');
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
         gen.write_byte(b']');
     }
 }
@@ -160,9 +160,9 @@ impl<'ast, G: Generator> ToCode<G> for MetaPropertyExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.callee);
+        gen.write_expression(&self.callee, 17);
         gen.write_byte(b'(');
-        gen.write_list(&self.arguments);
+        gen.write_expression_list(&self.arguments);
         gen.write_byte(b')');
     }
 }
@@ -195,7 +195,13 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             }
         };
 
-        gen.write_expression(&self.left, bp);
+        // The base of an exponentiation can be neither an unary expression,
+        // nor another exponentiation (which groups to the right).
+        if self.operator == OperatorKind::Exponent {
+            gen.write_expression(&self.left, bp + 1);
+        } else {
+            gen.write_expression(&self.left, bp);
+        }
 
         if spacing_left {
             gen.write_byte(b' ');
@@ -214,7 +220,12 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
         // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
         // hence the need for parenthesis in a right-balanced tree
         // even if binding power of operators is exactly the same.
-        gen.write_expression(&self.right, bp + 1);
+        // Assignments group to the right instead.
+        if self.operator.assignment() {
+            gen.write_expression(&self.right, bp);
+        } else {
+            gen.write_expression(&self.right, bp + 1);
+        }
     }
 }
 
@@ -225,14 +236,24 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
-        gen.write(&self.operand);
+
+        match self.operand.item {
+            // Arguments belong to `new` only if no other call comes before them
+            Expression::Call(ref call) if self.operator == OperatorKind::New => {
+                gen.write_expression(&call.callee, 18);
+                gen.write_byte(b'(');
+                gen.write_expression_list(&call.arguments);
+                gen.write_byte(b')');
+            },
+            _ => gen.write_expression(&self.operand, 15),
+        }
     }
 }
 
 impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.operand);
+        gen.write_expression(&self.operand, 17);
         gen.write(&self.operator);
     }
 }
@@ -240,15 +261,15 @@ impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ConditionalExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.test);
+        gen.write_expression(&self.test, 5);
         gen.write_pretty(b' ');
         gen.write_byte(b'?');
         gen.write_pretty(b' ');
-        gen.write(&self.consequent);
+        gen.write_expression(&self.consequent, ASSIGNMENT);
         gen.write_pretty(b' ');
         gen.write_byte(b':');
         gen.write_pretty(b' ');
-        gen.write(&self.alternate);
+        gen.write_expression(&self.alternate, ASSIGNMENT);
     }
 }
 
@@ -284,7 +305,7 @@ impl<'ast, G: Generator> ToCode<G> for TemplateLiteral<'ast> {
 impl<'ast, G: Generator> ToCode<G> for TaggedTemplateExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.tag);
+        gen.write_expression(&self.tag, 17);
         gen.write(&self.quasi);
     }
 }
@@ -293,7 +314,7 @@ impl<'ast, G: Generator> ToCode<G> for SpreadExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"...");
-        gen.write(&self.argument);
+        gen.write_expression(&self.argument, ASSIGNMENT);
     }
 }
 
@@ -301,7 +322,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write(expression),
+            ArrowBody::Expression(ref expression) => gen.write_leading_expression(expression, ASSIGNMENT),
             ArrowBody::Block(ref block)           => gen.write(block),
         }
     }
diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index b13c9a2..fd9b79a 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -1,6 +1,6 @@
 use ratel::ast::{Function, Class, ClassMember, Name, EmptyName, MandatoryName, OptionalName, MethodKind};
 
-use {ToCode, Generator};
+use {ToCode, Generator, ASSIGNMENT};
 
 
 impl<G: Generator> ToCode<G> for EmptyName {
@@ -115,7 +115,7 @@ impl<'ast, G: Generator> ToCode<G> for ClassMember<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, ASSIGNMENT);
                 gen.write_byte(b';');
             }
         }
@@ -132,7 +132,7 @@ impl<'ast, G, N> ToCode<G> for Class<'ast, N> where
         gen.write(&self.name);
         if let Some(ref super_class) = self.extends {
             gen.write_bytes(b" extends ");
-            gen.write(super_class);
+            gen.write_expression(super_class, 17);
         }
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 7481831..1af1736 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -3,13 +3,16 @@
 extern crate pretty_assertions;
 extern crate ratel;
 
-use ratel::ast::{Node, ExpressionNode, Loc, Block, Pattern};
+use ratel::ast::{Node, ExpressionNode, ExpressionList, Loc, Block, Pattern};
 use ratel::Module;
 
 mod expression;
 mod statement;
 mod function;
 
+/// Least binding power of anything but a sequence expression
+const ASSIGNMENT: u8 = 1;
+
 pub trait Generator: Sized {
     type Output;
 
@@ -37,6 +40,35 @@ pub trait Generator: Sized {
         }
     }
 
+    /// Writes an expression that starts a statement or an arrow function body, where
+    /// `{`, `function` and `class` would be taken for something else.
+    #[inline]
+    fn write_leading_expression<'ast>(&mut self, item: &ExpressionNode<'ast>, bp: u8) {
+        if item.is_allowed_as_bare_statement() {
+            self.write_expression(item, bp);
+        } else {
+            self.write_byte(b'(');
+            item.to_code(self);
+            self.write_byte(b')');
+        }
+    }
+
+    /// Writes a comma separated list in which every item is a single expression
+    #[inline]
+    fn write_expression_list<'ast>(&mut self, items: &ExpressionList<'ast>) {
+        let mut items = items.iter();
+
+        if let Some(item) = items.next() {
+            self.write_expression(item, ASSIGNMENT);
+        }
+
+        for item in items {
+            self.write_byte(b',');
+            self.write_pretty(b' ');
+            self.write_expression(item, ASSIGNMENT);
+        }
+    }
+
     #[inline]
     fn write_list<'a, T, I>(&mut self, items: I) where
         T: ToCode<Self> + 'a,
@@ -314,7 +346,7 @@ impl<'ast, G: Generator> ToCode<G> for Pattern<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(right);
+                gen.write_expression(right, ASSIGNMENT);
             }
         }
     }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index d7acf1a..44ed6cb 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Statement, StatementNode, Declarator, DeclarationKind};
 use ratel::ast::statement::*;
 
-use {ToCode, Generator};
+use {ToCode, Generator, ASSIGNMENT};
 use ratel::ast::Node;
 
 
@@ -16,13 +16,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
                 gen.write_bytes(b"debugger");
             },
             Expression(ref expression) => {
-                if expression.is_allowed_as_bare_statement() {
-                    gen.write(expression);
-                } else {
-                    gen.write_byte(b'(');
-                    gen.write(expression);
-                    gen.write_byte(b')');
-                }
+                gen.write_leading_expression(expression, 0);
                 gen.write_byte(b';');
             },
             Declaration(ref declaration) => {
@@ -82,7 +76,7 @@ impl<'ast, G: Generator> ToCode<G> for Declarator<'ast> {
             gen.write_pretty(b' ');
             gen.write_byte(b'=');
             gen.write_pretty(b' ');
-            gen.write(init);
+            gen.write_expression(init, ASSIGNMENT);
         }
     }
 }
@@ -243,7 +237,7 @@ impl<'ast, G: Generator> ToCode<G> for ForOfStatement<'ast> {
         gen.write_byte(b'(');
         gen.write(&self.left);
         gen.write_bytes(b" of ");
-        gen.write(&self.right);
+        gen.write_expression(&self.right, ASSIGNMENT);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
         write_body(gen, &self.body);
diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index b25d1db..88cbf21 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -191,9 +191,9 @@ impl<'ast> Expression<'ast> {
         use self::Expression::*;
 
         match *self {
-            Member(_) | MetaProperty(_) | Arrow(_) => 18,
+            Member(_) | MetaProperty(_) => 18,
 
-            Call(_) => 17,
+            Call(_) | TaggedTemplate(_) => 17,
 
             Prefix(_) => 15,
 
@@ -202,6 +202,8 @@ impl<'ast> Expression<'ast> {
 
             Conditional(_) => 4,
 
+            Arrow(_) => 3,
+
             Sequence(_) => 0,
 
             _  => 100,
@@ -216,7 +218,21 @@ impl<'ast> Expression<'ast> {
             Object(_)   |
             Function(_) |
             Class(_)    => false,
-            _           => true,
+
+            // These begin with whatever their first operand begins with
+            Sequence(ref sequence)       => match sequence.body.iter().next() {
+                Some(expression) => expression.is_allowed_as_bare_statement(),
+                None             => true,
+            },
+            Member(ref member)           => member.object.is_allowed_as_bare_statement(),
+            ComputedMember(ref computed) => computed.object.is_allowed_as_bare_statement(),
+            Call(ref call)               => call.callee.is_allowed_as_bare_statement(),
+            Binary(ref binary)           => binary.left.is_allowed_as_bare_statement(),
+            Postfix(ref postfix)         => postfix.operand.is_allowed_as_bare_statement(),
+            Conditional(ref conditional) => conditional.test.is_allowed_as_bare_statement(),
+            TaggedTemplate(ref tagged)   => tagged.tag.is_allowed_as_bare_statement(),
+
+            _ => true,
         }
     }
 
diff --git a/ratel/src/ast/operator.rs b/ratel/src/ast/operator.rs
index 6e60c4c..ffe49a1 100644
--- a/ratel/src/ast/operator.rs
+++ b/ratel/src/ast/operator.rs
@@ -190,12 +190,12 @@ impl OperatorKind {
             BitwiseNot       |
             Typeof           |
             Void             |
-            Delete           => 15,
+            Delete           |
+            Exponent         => 15,
 
             Multiplication   |
             Division         |
-            Remainder        |
-            Exponent         => 14,
+            Remainder        => 14,
 
             Addition         |
             Subtraction      => 13,
-- 
2.43.0


From 325853e18720a5ede3ca113b1b0e30c8fa75d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 05/43] fix: keep a sign or regular expression apart from the
 operator printed before it

---
 ratel-codegen/src/expression.rs | 16 ++++++++++++++--
 ratel-codegen/src/lib.rs        | 11 +++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 540dfa7..db064d7 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -47,8 +47,14 @@ impl<'ast, G: Generator> ToCode<G> for Literal<'ast> {
             False             => gen.write_bytes(b"false"),
             Binary(n)         => gen.write(&n),
             Number(ref val)   |
-            String(ref val)   |
-            RegEx(ref val)    => gen.write(val),
+            String(ref val)   => gen.write(val),
+            RegEx(ref val)    => {
+                // A division followed by a regular expression is not a comment
+                if gen.last_byte() == Some(b'/') {
+                    gen.write_byte(b' ');
+                }
+                gen.write(val);
+            },
         }
     }
 }
@@ -232,6 +238,12 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
+        // `+ +foo` is not `++foo`
+        match (self.operator.category(), gen.last_byte()) {
+            (OperatorCategory::Plus, Some(b'+')) |
+            (OperatorCategory::Minus, Some(b'-')) => gen.write_byte(b' '),
+            _ => {},
+        }
         gen.write(&self.operator);
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 1af1736..1cd26c1 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -20,6 +20,7 @@ pub trait Generator: Sized {
     fn write_byte(&mut self, u8);
     fn write_bytes(&mut self, &[u8]);
     fn write_pretty(&mut self, u8);
+    fn last_byte(&self) -> Option<u8>;
 
     #[inline]
     fn write<T>(&mut self, item: &T) where
@@ -153,6 +154,11 @@ impl Generator for MinifyingGenerator {
     fn write_bytes(&mut self, slice: &[u8]) {
         extend_from_slice(&mut self.code, slice);
     }
+
+    #[inline]
+    fn last_byte(&self) -> Option<u8> {
+        self.code.last().cloned()
+    }
 }
 
 pub struct PrettyGenerator {
@@ -191,6 +197,11 @@ impl Generator for PrettyGenerator {
         extend_from_slice(&mut self.code, slice);
     }
 
+    #[inline]
+    fn last_byte(&self) -> Option<u8> {
+        self.code.last().cloned()
+    }
+
     #[inline]
     fn new_line(&mut self) {
         self.write_byte(b'\n');
-- 
2.43.0


From d3143cf1be359886aeca04764eb6bce9aa37da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 06/43] fix: parenthesise the base of an exponentiation and
 unary operands of new

---
 ratel-codegen/src/expression.rs | 3 ++-
 ratel/src/ast/operator.rs       | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index db064d7..77d5873 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -204,7 +204,7 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
         // The base of an exponentiation can be neither an unary expression,
         // nor another exponentiation (which groups to the right).
         if self.operator == OperatorKind::Exponent {
-            gen.write_expression(&self.left, bp + 1);
+            gen.write_expression(&self.left, 16);
         } else {
             gen.write_expression(&self.left, bp);
         }
@@ -257,6 +257,7 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
                 gen.write_expression_list(&call.arguments);
                 gen.write_byte(b')');
             },
+            _ if self.operator == OperatorKind::New => gen.write_expression(&self.operand, 17),
             _ => gen.write_expression(&self.operand, 15),
         }
     }
diff --git a/ratel/src/ast/operator.rs b/ratel/src/ast/operator.rs
index ffe49a1..6e60c4c 100644
--- a/ratel/src/ast/operator.rs
+++ b/ratel/src/ast/operator.rs
@@ -190,12 +190,12 @@ impl OperatorKind {
             BitwiseNot       |
             Typeof           |
             Void             |
-            Delete           |
-            Exponent         => 15,
+            Delete           => 15,
 
             Multiplication   |
             Division         |
-            Remainder        => 14,
+            Remainder        |
+            Exponent         => 14,
 
             Addition         |
             Subtraction      => 13,
-- 
2.43.0


From 484fae4cd524ac530ca6beaf0685f7335220b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 07/43] fix: push import declarations onto the stack of parents
 they are popped from

---
 ratel-visitor/src/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index a5e3bc9..c4226f9 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -114,6 +114,7 @@ impl<'ast> Visitable<'ast> for StatementNode<'ast> {
             },
             Import(ref import) => {
                 visitor.on_import_declaration_statement(import, self);
+                visitor.push_parent(ParentNode::from(self));
                 import.visit_with(visitor);
             }
         }
-- 
2.43.0


From 08267aceb2d0f192ea27c2e957647cd287ff4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 08/43] fix: report the program body as a statement list

---
 ratel-visitor/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 6cdd0a6..b2a37b9 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -126,6 +126,7 @@ impl<'ast> Visitable<'ast> for Module<'ast> {
         V: Visitor<'ast>,
     {
         let body = self.body();
+        visitor.on_statement_list(body);
         for item in body {
             item.visit_with(visitor);
         }
-- 
2.43.0


From 7002f48738166d937667f8dae66ef980d4d96754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 09/43] fix: report imported and rest names as declarations,
 and no other words as references

---
 ratel-visitor/src/expression.rs | 9 ++-------
 ratel-visitor/src/lib.rs        | 4 +---
 ratel-visitor/src/statement.rs  | 9 ++++-----
 3 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index b6b1b3c..18a020b 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -197,14 +197,9 @@ impl<'ast> Visitable<'ast> for ComputedMemberExpression<'ast> {
 impl<'ast> Visitable<'ast> for MetaPropertyExpression<'ast> {
     type Parent = ExpressionNode<'ast>;
 
+    // Neither part of a meta property is a reference to a variable
     #[inline]
-    fn visit_with<V>(&'ast self, visitor: &mut V)
-    where
-        V: Visitor<'ast>,
-    {
-        self.meta.visit_with(visitor);
-        self.property.visit_with(visitor);
-    }
+    fn visit_with<V: Visitor<'ast>>(&self, _: &mut V) {}
 }
 
 impl<'ast> Visitable<'ast> for CallExpression<'ast> {
diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index b2a37b9..c560a22 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -150,9 +150,7 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
             Pattern::ArrayPattern { ref elements } => {
                 elements.visit_with(visitor);
             }
-            Pattern::RestElement { ref argument } => {
-                argument.visit_with(visitor);
-            }
+            Pattern::RestElement { ref argument } => visitor.on_reference_declaration(argument),
             Pattern::AssignmentPattern {
                 ref left,
                 ref right,
diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index c4226f9..cb6941e 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -393,7 +393,6 @@ impl<'ast> Visitable<'ast> for ImportDeclaration<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.source.visit_with(visitor);
         self.specifiers.visit_with(visitor);
     }
 }
@@ -422,8 +421,8 @@ impl<'ast> Visitable<'ast> for ImportSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
-        self.imported.visit_with(visitor);
+        // The imported name belongs to the other module
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -435,7 +434,7 @@ impl<'ast> Visitable<'ast> for ImportDefaultSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -447,6 +446,6 @@ impl<'ast> Visitable<'ast> for ImportNamespaceSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
-- 
2.43.0


From 73b3f20a8979622172f9a933d129af359ba12ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 10/43] fix: declare the parameter of a catch clause in the
 scope of its block

---
 ratel-visitor/src/statement.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index cb6941e..c1af7da 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -325,8 +325,12 @@ impl<'ast> Visitable<'ast> for CatchClause<'ast> {
     where
         V: Visitor<'ast>,
     {
+        // Call visit on the StatementList instead of BlockNode since we
+        // need to make sure that the parameter ends up inside the block
+        visitor.on_enter_scope(ScopeKind::Block);
         self.param.visit_with(visitor);
-        self.body.visit_with(visitor);
+        self.body.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 4e4a8b719b2237c5acc09577a5c1d55e154ac9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 11/43] fix: swap the node in the tree, not a copy of the
 pointer to it

---
 ratel-transformer/src/es2015/arrow.rs | 2 +-
 ratel-transformer/src/lib.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratel-transformer/src/es2015/arrow.rs b/ratel-transformer/src/es2015/arrow.rs
index c01ea7b..3c51daa 100644
--- a/ratel-transformer/src/es2015/arrow.rs
+++ b/ratel-transformer/src/es2015/arrow.rs
@@ -32,7 +32,7 @@ impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
             }
         };
 
-        self.ctx.swap(*ptr, Function {
+        self.ctx.swap(ptr, Function {
             name: OptionalName::empty(),
             generator: false,
             params: node.params,
diff --git a/ratel-transformer/src/lib.rs b/ratel-transformer/src/lib.rs
index 7a345a4..a9c6589 100644
--- a/ratel-transformer/src/lib.rs
+++ b/ratel-transformer/src/lib.rs
@@ -61,7 +61,7 @@ impl<'ast> TransformerCtxt<'ast> {
     }
 
     #[inline]
-    pub fn swap<T, I>(&self, ptr: Node<'ast, T>, item: I) where
+    pub fn swap<T, I>(&self, ptr: &Node<'ast, T>, item: I) where
         T: Copy + 'ast,
         I: Into<T>,
     {
-- 
2.43.0


From 364fd4c3e7f93e0e0164435cd536111e90694e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 12/43] fix: stop unterminated templates and regular
 expressions at the end of the source

---
 ratel/src/lexer/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 923361b..da2a333 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -775,6 +775,10 @@ impl<'arena> Lexer<'arena> {
                         _ => self.bump()
                     }
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return;
+                },
                 _ => self.bump()
             }
         }
@@ -1014,6 +1018,10 @@ impl<'arena> Lexer<'arena> {
                     self.token = UnexpectedToken;
                     return "";
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return "";
+                },
                 _     => self.bump()
             }
         }
-- 
2.43.0


From 463f4ec82cf1cae15eb3d98183c11695472cc418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 13/43] fix: read characters outside of ASCII by their length,
 also in accessors

---
 ratel/src/lexer/mod.rs | 47 ++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index da2a333..7f21bb6 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -457,22 +457,7 @@ const PRC: ByteHandler = Some(|lex| {
 
 // Unicode character
 const UNI: ByteHandler = Some(|lex| {
-    let start = lex.index;
-
-    // TODO: unicodes with different lengths
-    let first = lex.slice_source(start, start + 4).chars().next().expect("Has to have one");
-
-    if !first.is_alphanumeric() {
-        return lex.token = UnexpectedToken;
-    }
-
-    // `read_label` bumps one at the beginning,
-    // so we subtract it here.
-    lex.index += first.len_utf8() - 1;
-
-    lex.read_label();
-
-    lex.token = Identifier;
+    lex.read_unicode(Identifier);
 });
 
 // 0
@@ -882,12 +867,15 @@ impl<'arena> Lexer<'arena> {
         unwind_loop!({
             ch = self.read_byte();
 
+            if ch == 0 {
+                return self.token = UnexpectedEndOfProgram;
+            }
+
             if ch > 0x20 {
                 self.accessor_start = self.index;
 
                 if ch > 127 {
-                    unimplemented!();
-                    // return unicode(self)
+                    return self.read_unicode(Accessor);
                 } else if TABLE[ch as usize] {
                     self.read_label();
                     return self.token = Accessor;
@@ -907,6 +895,29 @@ impl<'arena> Lexer<'arena> {
         }
     }
 
+    /// Read a label that starts with a character outside of the ASCII range.
+    #[inline]
+    fn read_unicode(&mut self, token: Token) {
+        let start = self.index;
+
+        // The source is valid UTF-8, the first byte determines the length of the character
+        self.index += match self.read_byte() {
+            0..=0xDF    => 2,
+            0xE0..=0xEF => 3,
+            _           => 4,
+        };
+
+        let first = self.slice_from(start).chars().next().expect("Has to have one");
+
+        if !first.is_alphanumeric() {
+            return self.token = UnexpectedToken;
+        }
+
+        self.read_label();
+
+        self.token = token;
+    }
+
     #[inline]
     fn slice_from(&self, start: usize) -> &'arena str {
         let end = self.index;
-- 
2.43.0


From 53e5ecec3cd072eee427787a9639805e0aec5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 14/43] fix: a line break before or inside of a comment allows
 semicolon insertion

---
 ratel/src/lexer/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 7f21bb6..7fe2ff3 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -403,7 +403,7 @@ const SLH: ByteHandler = Some(|lex| {
             unwind_loop!({
                 match lex.next_byte() {
                     0 | b'\n' => {
-                        return lex.consume();
+                        return lex.scan();
                     }
                     _ => {}
                 }
@@ -420,13 +420,17 @@ const SLH: ByteHandler = Some(|lex| {
                         match lex.next_byte() {
                             b'/' => {
                                 lex.bump();
-                                return lex.consume();
+                                return lex.scan();
                             },
                             0 => return lex.token = UnexpectedEndOfProgram,
                             _ => {}
                         }
                     },
                     0 => return lex.token = UnexpectedEndOfProgram,
+                    b'\n' => {
+                        lex.bump();
+                        lex.asi = Asi::ImplicitSemicolon;
+                    },
                     _ => lex.bump()
                 }
             });
@@ -641,7 +645,12 @@ impl<'arena> Lexer<'arena> {
     #[inline]
     pub fn consume(&mut self) {
         self.asi = Asi::NoSemicolon;
+        self.scan();
+    }
 
+    /// Skip white space and comments and read the token that follows.
+    #[inline]
+    fn scan(&mut self) {
         let mut ch;
 
         unwind_loop!({
-- 
2.43.0


From 568a83ce9366abe96ccb6fa2b3e9c762da51c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 15/43] fix: reject numbers without digits after the radix
 prefix or the exponent

---
 ratel/src/lexer/mod.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 7fe2ff3..ffc9e82 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -827,6 +827,8 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_binary(&mut self) {
+        let start = self.index;
+
         loop {
             match self.read_byte() {
                 b'0' => {
@@ -839,7 +841,7 @@ impl<'arena> Lexer<'arena> {
             }
         }
 
-        self.token = LiteralBinary;
+        self.end_digits(start, LiteralBinary);
     }
 
     /// This is a specialized method that expects the next token to be an identifier,
@@ -947,6 +949,8 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_octal(&mut self) {
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'7' => true,
             _ => false,
@@ -954,11 +958,13 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.end_digits(start, LiteralNumber);
     }
 
     #[inline]
     fn read_hexadec(&mut self) {
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'9' |
             b'a'..=b'f' |
@@ -968,7 +974,16 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.end_digits(start, LiteralNumber);
+    }
+
+    /// A number needs at least one digit after its radix prefix or exponent.
+    #[inline]
+    fn end_digits(&mut self, start: usize, token: Token) {
+        self.token = match self.index == start {
+            true  => UnexpectedToken,
+            false => token,
+        };
     }
 
     #[inline]
@@ -994,6 +1009,8 @@ impl<'arena> Lexer<'arena> {
             _           => {}
         }
 
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'9' => true,
             _ => false,
@@ -1001,7 +1018,7 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.end_digits(start, LiteralNumber);
     }
 
     #[inline]
-- 
2.43.0


From e0779b1e57f39f27eb83e8dc903533166606e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:05 +0000
Subject: [PATCH 16/43] fix: a block that is not closed before the end of the
 program is an error

---
 ratel/src/parser/mod.rs       | 8 ++++++--
 ratel/src/parser/statement.rs | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 9b99d1a..2f76879 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -127,7 +127,9 @@ impl<'ast> Parser<'ast> {
         }
 
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
@@ -139,7 +141,9 @@ impl<'ast> Parser<'ast> {
     {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 3e56e67..104fb0f 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -176,7 +176,9 @@ impl<'ast> Parser<'ast> {
     pub fn block_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
-- 
2.43.0


From 65b0001096cd47aa29ec0b50bdd3c2889fb50504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:06 +0000
Subject: [PATCH 17/43] fix: don't read a switch case forever when the program
 ends inside of it

---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 104fb0f..64e36a9 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -139,7 +139,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
 
         loop {
             match par.lexer.token {
-                Case | Default | BraceClose => break,
+                Case | Default | BraceClose | EndOfProgram => break,
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
-- 
2.43.0


From 53f4bda5e45856a2eb98b5a39799776ed1362894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:08 +0000
Subject: [PATCH 18/43] fix: exponentiation groups to the right

---
 ratel/src/parser/nested.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 96b8980..2485af4 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -426,7 +426,8 @@ binary!(SUB  , B13 => Subtraction);
 binary!(MUL  , B14 => Multiplication);
 binary!(DIV  , B14 => Division);
 binary!(REM  , B14 => Remainder);
-binary!(EXPN , B15 => Exponent);
+// Exponentiation groups to the right
+binary!(EXPN , B14 => Exponent);
 
 
 impl<'ast> Parser<'ast> {
-- 
2.43.0


From b3c395eb589d80362bbdb9aa34d37e7244b493ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 19/43] fix: a member of import is an expression, a comma after
 import is an error

---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 64e36a9..c212710 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -635,7 +635,7 @@ impl<'ast> Parser<'ast> {
 
         let builder: GrowableList<Node<'ast, ForImportSpecifier>> = GrowableList::new();
         self.lexer.consume();
-        if self.lexer.token == Comma || self.lexer.token == ParenOpen {
+        if self.lexer.token == Accessor || self.lexer.token == ParenOpen {
             // call or access. example: `import()` `import.filed`
             let expression = self.alloc_at_loc(start, end, import);
             let expression = self.nested_expression::<ANY>(expression);
-- 
2.43.0


From 559c6d83f59f81678944e05b6adff183548f6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 20/43] fix: a computed member ends with its bracket

---
 ratel/src/parser/nested.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 2485af4..18ca891 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -298,8 +298,8 @@ const CMEM: NestedHandler = Some(|par, left| {
     par.lexer.consume();
     let property = par.expression::<ANY>();
 
-    expect!(par, BracketClose);
     let end = par.lexer.end();
+    expect!(par, BracketClose);
 
     par.alloc_at_loc(left.start, end, ComputedMemberExpression {
         object: left,
-- 
2.43.0


From bb30d9da6d599d1831ce2ede506b35571074d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:12 +0000
Subject: [PATCH 21/43] fix: a spread property ends with its argument

---
 ratel/src/parser/expression.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 7b3aebc..46932e3 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -418,8 +418,7 @@ impl<'ast> Parser<'ast> {
             OperatorSpread => {
                 let start = self.lexer.start_then_consume();
                 let argument = self.expression::<B0>();
-                let end = self.lexer.end();
-                return self.alloc_at_loc(start, end, Property::Spread { argument });
+                return self.alloc_at_loc(start, argument.end, Property::Spread { argument });
             },
             LiteralString |
             LiteralNumber => {
-- 
2.43.0


From 720c6d6731e9d8c4cbecbd9fc674791fc82287c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 22/43] fix: the declarations of a for statement end with the
 last one

---
 ratel/src/parser/statement.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index c212710..a4749f1 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -241,7 +241,7 @@ impl<'ast> Parser<'ast> {
     #[inline]
     pub fn variable_declaration_statement(&mut self, kind: DeclarationKind) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
-        let declarators = self.variable_declarators();
+        let (declarators, _) = self.variable_declarators();
         let end = self.lexer.end();
         let declaration = self.alloc_at_loc(start, end, DeclarationStatement {
             kind,
@@ -274,22 +274,17 @@ impl<'ast> Parser<'ast> {
     }
 
     #[inline]
-    pub fn variable_declarators(&mut self) -> NodeList<'ast, Declarator<'ast>> {
-        let builder = ListBuilder::new(self.arena, self.variable_declarator());
+    pub fn variable_declarators(&mut self) -> (NodeList<'ast, Declarator<'ast>>, u32) {
+        let mut last = self.variable_declarator();
+        let builder = ListBuilder::new(self.arena, last);
 
-        match self.lexer.token {
-            Comma => self.lexer.consume(),
-            _     => return builder.as_list(),
+        while let Comma = self.lexer.token {
+            self.lexer.consume();
+            last = self.variable_declarator();
+            builder.push(self.arena, last);
         }
 
-        loop {
-            builder.push(self.arena, self.variable_declarator());
-
-            match self.lexer.token {
-                Comma => self.lexer.consume(),
-                _     => return builder.as_list(),
-            }
-        }
+        (builder.as_list(), last.end)
     }
 
     #[inline]
@@ -483,9 +478,8 @@ impl<'ast> Parser<'ast> {
     #[inline]
     fn for_init(&mut self, kind: DeclarationKind) -> Node<'ast, ForInit<'ast>> {
         let start = self.lexer.start_then_consume();
-        let declarators = self.variable_declarators();
-        let end = self.lexer.end();
-        
+        let (declarators, end) = self.variable_declarators();
+
         self.alloc_at_loc(start, end, DeclarationStatement {
             kind,
             declarators
-- 
2.43.0


From 563cda808372d3c9ec93a52cb826f7e9dbbf8c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 23/43] fix: an import without specifiers begins with the
 keyword

---
 ratel/src/parser/statement.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index a4749f1..eaad3aa 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -656,7 +656,6 @@ impl<'ast> Parser<'ast> {
                 }
             }
             LiteralString => { // empty import entry
-                let start = self.lexer.start();
                 let str_ltr = self.lexer.token_as_str();
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
-- 
2.43.0


From 1bc0f8d62b7bf2fd4a99e9f7014b26df83661093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 24/43] fix: the name of an accessor in a class is where it is
 written

---
 ratel/src/parser/function.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index a9bcbdd..b479ea9 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -115,8 +115,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
         let mut kind = MethodKind::Method;
 
-        let token_start = par.lexer.start();
-        let token_end;
+        let mut token_start = par.lexer.start();
+        let mut token_end;
 
         let key = match par.lexer.token {
             _ if par.lexer.token.is_word() => {
@@ -130,7 +130,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                         _     => return par.error()
                     };
                     label = par.lexer.token_as_str();
-                    par.lexer.consume();
+                    token_start = par.lexer.start();
+                    token_end = par.lexer.end_then_consume();
                 } else if !is_static && label == "constructor" {
                     kind = MethodKind::Constructor;
                 }
-- 
2.43.0


From 5e98241cbcab2a60bb089d92d3c1a60b98d1a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 25/43] fix: a declaration without a semicolon ends with its
 last declarator

---
 ratel/src/parser/statement.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index eaad3aa..8d982ae 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -241,8 +241,11 @@ impl<'ast> Parser<'ast> {
     #[inline]
     pub fn variable_declaration_statement(&mut self, kind: DeclarationKind) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
-        let (declarators, _) = self.variable_declarators();
-        let end = self.lexer.end();
+        let (declarators, end) = self.variable_declarators();
+        let end = match self.lexer.token {
+            Semicolon => self.lexer.end(),
+            _         => end,
+        };
         let declaration = self.alloc_at_loc(start, end, DeclarationStatement {
             kind,
             declarators
-- 
2.43.0


From d09d12b6ba7a9f691210dea96d84082a655994b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 26/43] fix: an arrow function without parameters ends with its
 body

---
 ratel/src/ast/expression.rs    | 10 ++++++++++
 ratel/src/parser/expression.rs |  3 +--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 88cbf21..d5a8e7a 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -112,6 +112,16 @@ pub enum ArrowBody<'ast> {
     Block(BlockNode<'ast, Statement<'ast>>)
 }
 
+impl<'ast> ArrowBody<'ast> {
+    #[inline]
+    pub fn end(&self) -> u32 {
+        match *self {
+            ArrowBody::Expression(expression) => expression.end,
+            ArrowBody::Block(block)           => block.end,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub struct ArrowExpression<'ast> {
     pub params: NodeList<'ast, Pattern<'ast>>,
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 46932e3..7b85b58 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -321,8 +321,7 @@ impl<'ast> Parser<'ast> {
                 self.lexer.consume();
                 expect!(self, OperatorFatArrow);
                 let expression = self.arrow_function_expression(NodeList::empty());
-                let end = self.lexer.end();
-                self.alloc_at_loc(start, end, expression)
+                self.alloc_at_loc(start, expression.body.end(), expression)
             },
             _ => {
                 let expression = self.expression::<ANY>();
-- 
2.43.0


From 11f6ec12131cd8c772be7279f90700c139de3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 27/43] fix: an arrow function ends with its body

---
 ratel/src/parser/nested.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 18ca891..bc39eba 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -267,8 +267,7 @@ const ARRW: NestedHandler = Some(|par, left| {
 
     let expression = par.arrow_function_expression(params);
     let start = left.start;
-    let end = par.lexer.end();
-    par.alloc_at_loc(start, end, expression)
+    par.alloc_at_loc(start, expression.body.end(), expression)
 });
 
 const ACCS: NestedHandler = Some(|par, left| {
-- 
2.43.0


From 193fc0f9c2b7eee915f12fbe30449559a2fcf3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 28/43] fix: a prefix operation ends with its operand

---
 ratel/src/parser/expression.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 7b85b58..f688a60 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -137,8 +137,7 @@ create_handlers! {
         let op = OperatorKind::from_token(par.lexer.token).expect("Must be a prefix operator");
         par.lexer.consume();
         let expression = par.prefix_expression(op);
-        let end = par.lexer.end();
-        par.alloc_at_loc(start, end, expression)
+        par.alloc_at_loc(start, expression.operand.end, expression)
     };
 
     pub const NEW = |par| {
-- 
2.43.0


From d3971ef6736ae45f0df3a4be7e8bf5715f793601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 29/43] fix: arguments of a constructor belong to the first new
 only

---
 ratel/src/parser/expression.rs | 27 ++++++++++++++++++++++++---
 ratel/src/parser/nested.rs     | 22 ++++++++++++++--------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index f688a60..8d2d39f 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, BindingPower, ANY, B0, B15};
+use parser::{Parser, Parse, BindingPower, ANY, B0, B15, B16};
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode};
@@ -152,9 +152,18 @@ create_handlers! {
             par.lexer.consume();
             par.alloc_at_loc(start, end, expression)
         } else {
-            let expression = par.prefix_expression(OperatorKind::New);
+            let mut operand = par.expression::<B16>();
+
+            // Only the first arguments belong to `new`
+            if par.lexer.token == ParenOpen {
+                operand = par.call_expression(operand);
+            }
+
             let end = par.lexer.end();
-            par.alloc_at_loc(start, end, expression)
+            par.alloc_at_loc(start, end, PrefixExpression {
+                operator: OperatorKind::New,
+                operand,
+            })
         }
     };
 
@@ -279,6 +288,18 @@ impl<'ast> Parser<'ast> {
         }
     }
 
+    #[inline]
+    pub fn call_expression(&mut self, callee: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
+        let start = self.lexer.start_then_consume();
+        let arguments = self.call_arguments();
+        let end = self.lexer.end_then_consume();
+
+        self.alloc_at_loc(start, end, CallExpression {
+            callee,
+            arguments,
+        })
+    }
+
     #[inline]
     pub fn call_arguments(&mut self) -> ExpressionList<'ast> {
         if self.lexer.token == ParenClose {
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index bc39eba..7699a20 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -224,6 +224,19 @@ bp!(B15, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
+// Only what belongs to the callee of `new`
+bp!(B16, [
+    ____, ____, ____, ____, ____, ____, CMEM, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
+]);
+
 const ____: NestedHandler = None;
 
 const SEQ: NestedHandler = Some(|par, left| {
@@ -283,14 +296,7 @@ const ACCS: NestedHandler = Some(|par, left| {
 });
 
 const CALL: NestedHandler = Some(|par, left| {
-    let start = par.lexer.start_then_consume();
-    let arguments = par.call_arguments();
-    let end = par.lexer.end_then_consume();
-
-    par.alloc_at_loc(start, end, CallExpression {
-        callee: left,
-        arguments,
-    })
+    par.call_expression(left)
 });
 
 const CMEM: NestedHandler = Some(|par, left| {
-- 
2.43.0


From d6761936bac65faddbe525000b9aa2f9653d133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 30/43] fix: an import declaration has to be terminated

---
 ratel/src/parser/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 8d982ae..409657a 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -663,6 +663,8 @@ impl<'ast> Parser<'ast> {
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
 
+                self.expect_semicolon();
+
                 return self.alloc_at_loc(start, end, ImportDeclaration {
                     specifiers: NodeList::empty(),
                     source,
@@ -748,6 +750,9 @@ impl<'ast> Parser<'ast> {
             }
         };
         let end = self.lexer.end_then_consume();
+
+        self.expect_semicolon();
+
         self.alloc_at_loc(start, end, ImportDeclaration {
             specifiers: builder.as_list(),
             source,
-- 
2.43.0


From 09f351453b9e76be5ebce26b1879a4163be8feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 31/43] fix: a debugger statement includes its semicolon

---
 ratel/src/parser/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 409657a..f64f1e8 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -76,6 +76,7 @@ create_handlers! {
     const DBGGR = |par| {
         let stmt = par.alloc_in_loc(Statement::Debugger);
         par.lexer.consume();
+        par.expect_semicolon();
 
         stmt
     };
-- 
2.43.0


From d36587b8448836a410817092c45dfd87ebc4f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 32/43] fix: a do statement includes its semicolon

---
 ratel/src/parser/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index f64f1e8..7612577 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -473,6 +473,11 @@ impl<'ast> Parser<'ast> {
         let end = self.lexer.end();
         expect!(self, ParenClose);
 
+        // The semicolon is optional here, even without a line break
+        if self.lexer.token == Semicolon {
+            self.lexer.consume();
+        }
+
         self.alloc_at_loc(start, end, DoStatement {
             body,
             test,
-- 
2.43.0


From a21183718a49b952f21835045e50e88c2ca73258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:24 +0000
Subject: [PATCH 33/43] fix: transform arrow functions in the expression body
 of an arrow function

---
 ratel-visitor/src/expression.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index 18a020b..2770cdc 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -99,6 +99,14 @@ impl<'ast> Visitable<'ast> for ExpressionNode<'ast> {
             },
             Arrow(ref arrow) => {
                 visitor.on_arrow_expression(arrow, self);
+
+                // The arrow function might have been swapped out for another
+                // expression, in which case that expression has to be visited.
+                let arrow = match self.item {
+                    Arrow(ref arrow) => arrow,
+                    _                => return self.visit_with(visitor),
+                };
+
                 visitor.push_parent(ParentNode::from(self));
                 arrow.visit_with(visitor);
             },
-- 
2.43.0


From db0515df6294fe2d35b251c67abc6aa3d232df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 34/43] fix: give the parameters and body of an arrow function
 a scope of their own

---
 ratel-visitor/src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index 2770cdc..9c8ceff 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Identifier, Expression, ExpressionNode, StatementNode, Literal};
 use ratel::ast::expression::*;
 
-use {Visitor, Visitable, ParentNode};
+use {Visitor, Visitable, ParentNode, ScopeKind};
 
 
 impl<'ast> Visitable<'ast> for ExpressionNode<'ast> {
@@ -334,8 +334,10 @@ impl<'ast> Visitable<'ast> for ArrowExpression<'ast> {
     where
         V: Visitor<'ast>,
     {
+        visitor.on_enter_scope(ScopeKind::Function);
         self.params.visit_with(visitor);
         self.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 4c2bc41322a90c4b4f6fa781ebab1babb180ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 35/43] fix: serialize `new` without arguments for any
 constructor expression

---
 ratel/src/astgen/expression.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/expression.rs b/ratel/src/astgen/expression.rs
index f9732ee..20fd6f1 100644
--- a/ratel/src/astgen/expression.rs
+++ b/ratel/src/astgen/expression.rs
@@ -164,15 +164,14 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", arguments)
                     })
                 },
-                Literal(_) => {
+                _ => {
                     self.in_loc(serializer, expr_type, 2, |state| {
                         // 0 byte array, will be optimized away
                         let arguments: [(); 0] = [];
                         state.serialize_field("callee", &self.operand)?;
                         state.serialize_field("arguments", &arguments)
                     })
-                },
-                _ => unimplemented!()
+                }
             }
         } else {
             self.in_loc(serializer, expr_type, 3, |state| {
-- 
2.43.0


From 0c4a5f54f450b9da9be8a68c7e260a3c24cf1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 36/43] fix: serialize fields of classes

---
 ratel/src/astgen/function.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 63bb687..eced0bf 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -2,6 +2,7 @@ use serde::ser::{Serialize, Serializer, SerializeStruct};
 use astgen::SerializeInLoc;
 use ast::{Function, Class, Name, MandatoryName, OptionalName, EmptyName, ClassMember, Block};
 use ast::MethodKind;
+use ast::expression::PropertyKey;
 
 impl<'ast> Serialize for MethodKind {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -36,8 +37,19 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                     state.serialize_field("value", &value)
                 })
             },
-            Literal { .. } => {
-                unimplemented!()
+            Literal { is_static, key, value } => {
+                let computed = if let PropertyKey::Computed(_) = key.item {
+                    true
+                } else {
+                    false
+                };
+
+                self.in_loc(serializer, "PropertyDefinition", 4, |state| {
+                    state.serialize_field("static", &is_static)?;
+                    state.serialize_field("computed", &computed)?;
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("value", &value)
+                })
             }
         }
     }
-- 
2.43.0


From 5b73cb2d6258c1c98247d6958815ab0deed75f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 37/43] fix: serialize the names of methods in brackets as
 computed

---
 ratel/src/astgen/function.rs |  8 +++++++-
 ratel/src/astgen/value.rs    | 24 ++++++++++++++++--------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index eced0bf..6d2b04b 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -29,10 +29,16 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
         match *self {
             Error { .. } => panic!("Module contains errors"),
             Method { is_static, key, kind, value } => {
+                let computed = if let PropertyKey::Computed(_) = key.item {
+                    true
+                } else {
+                    false
+                };
+
                 self.in_loc(serializer, "MethodDefinition", 5, |state| {
                     state.serialize_field("kind", &kind)?;
                     state.serialize_field("static", &is_static)?;
-                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("computed", &computed)?;
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("value", &value)
                 })
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 35a17c1..c64506f 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -129,14 +129,22 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                     state.serialize_field("kind", &"init")
                 })
             }
-            Method { key, value } => self.in_loc(serializer, "Property", 6, |state| {
-                state.serialize_field("key", &*key)?;
-                state.serialize_field("method", &true)?;
-                state.serialize_field("shorthand", &false)?;
-                state.serialize_field("computed", &false)?;
-                state.serialize_field("value", &value)?;
-                state.serialize_field("kind", &"init")
-            }),
+            Method { key, value } => {
+                let computed = if let PropertyKey::Computed(_) = key.item {
+                    true
+                } else {
+                    false
+                };
+
+                self.in_loc(serializer, "Property", 6, |state| {
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("method", &true)?;
+                    state.serialize_field("shorthand", &false)?;
+                    state.serialize_field("computed", &computed)?;
+                    state.serialize_field("value", &value)?;
+                    state.serialize_field("kind", &"init")
+                })
+            },
             Spread { argument } => self.in_loc(serializer, "SpreadProperty", 1, |state| {
                 state.serialize_field("argument", &argument)
             })
-- 
2.43.0


From 4ccdaa504a7c1771805575349de0c16d0811d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 38/43] fix: serialize holes of array patterns as null

---
 ratel/src/astgen/value.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index c64506f..950e57b 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -267,6 +267,14 @@ impl<'ast> SerializeInLoc for Pattern<'ast> {
                 state.serialize_field("keys", &properties)
             }),
             ArrayPattern { elements } => self.in_loc(serializer, "ArrayPattern", 1, |state| {
+                let mut elements = elements.iter()
+                                           .map(|loc| if loc.item != Pattern::Void { Some(loc) } else { None })
+                                           .collect::<Vec<_>>();
+
+                while let Some(&None) = elements.last() {
+                    elements.pop();
+                }
+
                 state.serialize_field("elements", &elements)
             }),
             AssignmentPattern { left, right } => {
-- 
2.43.0


From 7da48ff47d589ae9a7219e6fff037490e76e1295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 39/43] fix: serialize integers of any size and numbers with an
 exponent

---
 ratel/src/astgen/value.rs | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 950e57b..a4d5cba 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -30,6 +30,24 @@ pub fn is_float(value: &str) -> bool {
     value.bytes().any(|c| c == b'.')
 }
 
+/// Serializes the value of an integer literal, as a float if it
+/// doesn't fit in 64 bits.
+#[inline]
+fn serialize_integer<S>(state: &mut S, digits: &str, radix: u32) -> Result<(), S::Error>
+where
+    S: SerializeStruct,
+{
+    if let Ok(value) = i64::from_str_radix(digits, radix) {
+        return state.serialize_field("value", &value);
+    }
+
+    let value = digits.bytes().fold(0.0, |value: f64, digit| {
+        value * f64::from(radix) + f64::from((digit as char).to_digit(radix).unwrap_or(0))
+    });
+
+    state.serialize_field("value", &value)
+}
+
 #[derive(Debug)]
 pub struct TemplateElement<'ast> {
     pub tail: bool,
@@ -213,30 +231,25 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         if is_hexdecimal || is_octal {
                             let value = unsafe { number.get_unchecked(2..number.len()) };
                             let radix = if is_hexdecimal { 16 } else { 8 };
-                            state.serialize_field(
-                                "value",
-                                &i32::from_str_radix(value, radix).expect("Invalid number"),
-                            )?;
+                            serialize_integer(state, value, radix)?;
                             return state.serialize_field("raw", &number)
                         }
                     }
 
-                    if is_float(number) {
-                        let value: f64 = number.parse().expect("Invalid number");
-                        state.serialize_field("value", &value)?;
-                        return state.serialize_field("raw", &number)
+                    if !is_float(number) {
+                        if let Ok(value) = number.parse::<i64>() {
+                            state.serialize_field("value", &value)?;
+                            return state.serialize_field("raw", &number)
+                        }
                     }
 
-                    let value: i64 = number.parse().expect("Invalid number");
+                    let value: f64 = number.parse().expect("Invalid number");
                     state.serialize_field("value", &value)?;
                     state.serialize_field("raw", &number)
                 }
                 Binary(number) => {
                     let value = unsafe { number.get_unchecked(2..number.len()) };
-                    state.serialize_field(
-                        "value",
-                        &i32::from_str_radix(value, 2).expect("Invalid number"),
-                    )?;
+                    serialize_integer(state, value, 2)?;
                     state.serialize_field("raw", &number)
                 }
                 String(value) => {
-- 
2.43.0


From c8e222256cc8c515033ddc604b912c31f562d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 40/43] fix: announce the number of fields that are serialized

---
 ratel/src/astgen/function.rs  | 2 +-
 ratel/src/astgen/statement.rs | 2 +-
 ratel/src/astgen/value.rs     | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 6d2b04b..35dfe74 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -138,7 +138,7 @@ where
     where
         S: Serializer,
     {
-        self.in_loc(serializer, N::IN_FUNCTION, 3, |state| {
+        self.in_loc(serializer, N::IN_FUNCTION, 4, |state| {
             state.serialize_field("generator", &self.generator)?;
             state.serialize_field("id", &self.name)?;
             state.serialize_field("params", &self.params)?;
diff --git a/ratel/src/astgen/statement.rs b/ratel/src/astgen/statement.rs
index 8c23823..e6a42f8 100644
--- a/ratel/src/astgen/statement.rs
+++ b/ratel/src/astgen/statement.rs
@@ -207,7 +207,7 @@ impl<'ast> SerializeInLoc for ImportDeclaration<'ast> {
     where
         S: Serializer,
     {
-        self.in_loc(serializer, "ImportDeclaration", 1, |state| {
+        self.in_loc(serializer, "ImportDeclaration", 2, |state| {
             state.serialize_field("specifiers", &self.specifiers)?;
             state.serialize_field("source", &self.source)
         })
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index a4d5cba..d943417 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -206,7 +206,12 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
             _ => "Literal",
         };
 
-        self.in_loc(serializer, literal_type, 1, |state| {
+        let length = match *self {
+            Undefined => 1,
+            _ => 2,
+        };
+
+        self.in_loc(serializer, literal_type, length, |state| {
             match *self {
                 Undefined => {
                     state.serialize_field("raw", &"undefined")
-- 
2.43.0


From 2876b03678e9386bcbcc7a98439549913c3219a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 41/43] fix: error messages count the line break right before
 an error

---
 ratel/src/error.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ratel/src/error.rs b/ratel/src/error.rs
index a4d15d7..a93cd5f 100644
--- a/ratel/src/error.rs
+++ b/ratel/src/error.rs
@@ -49,8 +49,9 @@ impl Display for ParseError {
                 start,
                 end
             } => {
+                // Unlike with `lines`, a line break at the very end starts another line
                 let (lineno, line) = source[..start]
-                                       .lines()
+                                       .split('\n')
                                        .enumerate()
                                        .last()
                                        .unwrap_or((0, ""));
@@ -61,7 +62,8 @@ impl Display for ParseError {
                 writeln!(f, "Unexpected token at {}:{}\n", lineno + 1, colno + 1)?;
 
                 let iter = source
-                            .lines()
+                            .split('\n')
+                            .map(|line| line.trim_end_matches('\r'))
                             .enumerate()
                             .skip_while(|&(index, _)| index < lineno.saturating_sub(2))
                             .take_while(|&(index, _)| index < lineno + 3);
-- 
2.43.0


From 085687efe6e0425608eeb27a78fa495e7852fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:39 +0000
Subject: [PATCH 42/43] fix: tie the list that Module::body returns to the
 module it lives in

The list was handed out for any lifetime, so safe code could keep it after the
module and its arena were dropped and read freed memory.
---
 ratel-codegen/src/lib.rs |  2 +-
 ratel/src/astgen/mod.rs  |  2 +-
 ratel/src/module.rs      | 13 ++++++++++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 1cd26c1..ecfdd26 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -221,7 +221,7 @@ impl Generator for PrettyGenerator {
     }
 }
 
-pub fn codegen(module: &Module, minify: bool) -> String {
+pub fn codegen<'ast>(module: &'ast Module<'ast>, minify: bool) -> String {
     if minify {
         let mut gen = MinifyingGenerator::default();
 
diff --git a/ratel/src/astgen/mod.rs b/ratel/src/astgen/mod.rs
index e1aa099..a768c53 100644
--- a/ratel/src/astgen/mod.rs
+++ b/ratel/src/astgen/mod.rs
@@ -51,7 +51,7 @@ impl<'ast> Serialize for Module<'ast> {
     where
         S: Serializer
     {
-        let body = self.body();
+        let body = self.statements();
 
         let mut start = 0;
         let mut end = 0;
diff --git a/ratel/src/module.rs b/ratel/src/module.rs
index e9067a9..8e54c27 100644
--- a/ratel/src/module.rs
+++ b/ratel/src/module.rs
@@ -23,9 +23,16 @@ impl<'ast> Module<'ast> {
         }
     }
 
-    /// Get the body of the module as a list of statements.
+    /// Get the body of the module as a list of statements. The list lives in
+    /// the `Arena` of this module, which has to stay around as long as the list.
     #[inline]
-    pub fn body(&self) -> StatementList<'ast> {
+    pub fn body(&'ast self) -> StatementList<'ast> {
+        self.statements()
+    }
+
+    /// Same as `body`, for borrows that end before `'ast` does.
+    #[inline]
+    pub(crate) fn statements<'a>(&'a self) -> StatementList<'a> {
         unsafe { self.body.into_list() }
     }
 
@@ -39,7 +46,7 @@ impl<'ast> Module<'ast> {
 impl<'ast> fmt::Debug for Module<'ast> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "Module:").unwrap();
-        for elem in self.body().iter() {
+        for elem in self.statements().iter() {
             write!(f, "\n\t{:?}", elem).unwrap()
         }
         Ok(())
-- 
2.43.0


From 71ce66bc87eac3c583a80f8aa103916794205f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:40 +0000
Subject: [PATCH 43/43] fix: let a module be used after it was transformed

The nodes are cells, so the transformer needs no exclusive borrow, and one
that lasts for the lifetime of the tree kept the result from being printed.
---
 ratel-transformer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel-transformer/src/lib.rs b/ratel-transformer/src/lib.rs
index a9c6589..3f86670 100644
--- a/ratel-transformer/src/lib.rs
+++ b/ratel-transformer/src/lib.rs
@@ -75,7 +75,7 @@ impl<'ast> TransformerCtxt<'ast> {
     }
 }
 
-pub fn transform<'ast>(module: &'ast mut Module<'ast>) {
+pub fn transform<'ast>(module: &'ast Module<'ast>) {
     let arena = module.arena();
 
     let ctx = TransformerCtxt {
-- 
2.43.0

