From 0b625ac8aa69bfe8b6dc787d24e9595f8cf0defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:59 +0000
Subject: [PATCH 01/19] fix: keep the operator when combining non-numeric
 expressions

---
 doctor-syn/src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index 32a8bc8..bfd70d6 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -206,7 +206,7 @@ macro_rules! make_op {
             } else {
                 let lhs = lhs.as_ref();
                 let rhs = rhs.as_ref();
-                let res : Expr = parse_quote!((#lhs) + (#rhs));
+                let res : Expr = parse_quote!((#lhs) $op (#rhs));
                 res.into()
             }
         }
-- 
2.43.0


From 420a69a294499babd7774222a68c86962c6350a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:34 +0000
Subject: [PATCH 02/19] fix: convert literals to the nearest f32/f64 of the
 requested width

---
 .../src/transformation/use_number_type.rs     | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index ee59430..0c0093b 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -1,6 +1,5 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::visitor::Visitor;
-use bigdecimal::*;
 use syn::{parse_quote, Expr, ExprLit, Lit};
 
 #[derive(Debug)]
@@ -14,31 +13,41 @@ impl<'a> Visitor for UseNumberType<'a> {
     fn visit_lit(&self, expr: &ExprLit) -> Result<Expr> {
         match &expr.lit {
             Lit::Float(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                let float32: f32 = lit.base10_parse()?;
+                let float64: f64 = lit.base10_parse()?;
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal", 32) | ("hex", 32) if float32.is_infinite() => {
+                        return Err(Error::Overflow)
+                    }
+                    ("decimal", 64) | ("hex", 64) if float64.is_infinite() => {
+                        return Err(Error::Overflow)
+                    }
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
             }
             Lit::Int(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                let float32: f32 = lit.base10_parse()?;
+                let float64: f64 = lit.base10_parse()?;
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal", 32) | ("hex", 32) if float32.is_infinite() => {
+                        return Err(Error::Overflow)
+                    }
+                    ("decimal", 64) | ("hex", 64) if float64.is_infinite() => {
+                        return Err(Error::Overflow)
+                    }
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
-- 
2.43.0


From 41a9f600252a8cd0f4ad2a4d59a56f7ba5721aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:52 +0000
Subject: [PATCH 03/19] fix: keep all the bits when converting between floats
 and decimals

---
 doctor-syn/src/bdmath.rs     | 13 +++++++++----
 doctor-syn/src/expression.rs |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 05924e9..98c2a92 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -86,12 +86,14 @@ pub fn bigd(i: i32) -> BigDecimal {
     BigDecimal::from_i32(i).unwrap()
 }
 
+// Note: BigDecimal::from_f64 and from_f32 only keep 16 and 7 digits, so we use
+// the shortest decimal that converts back to the same number.
 pub fn bigdf(i: f64) -> BigDecimal {
-    BigDecimal::from_f64(i).unwrap()
+    format!("{:?}", i).parse().unwrap()
 }
 
 pub fn bigdf32(i: f32) -> BigDecimal {
-    BigDecimal::from_f32(i).unwrap()
+    format!("{:?}", i).parse().unwrap()
 }
 
 pub fn zero() -> BigDecimal {
@@ -334,12 +336,15 @@ pub fn dnorm(x: BigDecimal, mean: BigDecimal, sd: BigDecimal, num_digits: i64) -
 
 /// Round to f32 or f64.
 pub fn round_ieee(x: BigDecimal, bits: BigDecimal, _num_digits: i64) -> Result<BigDecimal> {
+    // BigDecimal::to_f64 is not correctly rounded, but f64's FromStr is.
     match bits.to_i32() {
         Some(32) => {
-            Ok(BigDecimal::from_f32(x.to_f32().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
+            let f: f32 = x.to_string().parse().map_err(|_| Error::Overflow)?;
+            if f.is_finite() { Ok(bigdf32(f)) } else { Err(Error::Overflow) }
         }
         Some(64) => {
-            Ok(BigDecimal::from_f64(x.to_f64().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
+            let f: f64 = x.to_string().parse().map_err(|_| Error::Overflow)?;
+            if f.is_finite() { Ok(bigdf(f)) } else { Err(Error::Overflow) }
         }
         _ => Err(Error::Expected32or64bits),
     }
diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index bfd70d6..07c3997 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -66,14 +66,14 @@ impl From<bool> for Expression {
 
 impl From<f64> for Expression {
     fn from(val: f64) -> Self {
-        let bd = BigDecimal::from_f64(val).unwrap();
+        let bd = bigdf(val);
         Expression::from(bd)
     }
 }
 
 impl From<f32> for Expression {
     fn from(val: f32) -> Self {
-        let bd = BigDecimal::from_f32(val).unwrap();
+        let bd = bigdf32(val);
         Expression::from(bd)
     }
 }
-- 
2.43.0


From 99e18e29fbe34f8195bd1ef49c543df088ed900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:32 +0000
Subject: [PATCH 04/19] fix: evaluation reports an error instead of panicking
 on undefined values

---
 doctor-syn/src/bdmath.rs              |  6 ++++++
 doctor-syn/src/transformation/eval.rs | 14 +++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 98c2a92..2aaa949 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -287,6 +287,9 @@ pub fn ln(mut x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
 
 pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
     if let (Some(lnx), Some(lnbase)) = (ln(x, num_digits), ln(base, num_digits)) {
+        if lnbase.is_zero() {
+            return None;
+        }
         Some(lnx / lnbase)
     } else {
         None
@@ -376,6 +379,9 @@ pub fn qnorm(
     num_digits: i64,
 ) -> Option<BigDecimal> {
     // println!("x={}", x);
+    if sd.is_zero() || x == one() {
+        return None;
+    }
     if let Some(_logit) = ln(&x / (one() - &x), num_digits) {
         // let mut guess = logit * bigdf(0.6);
         // let mut guess = logit * bigdf(0.1);
diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index dd98933..2c1d58c 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -70,7 +70,7 @@ impl Visitor for Eval {
             //     .try_into()?
 
             //     .into()),
-            ("recip", x, 0) => Ok(Expression::from(x.inverse()).into()),
+            ("recip", x, 0) if !x.is_zero() => Ok(Expression::from(x.inverse()).into()),
 
             ("powi", x, 1) => {
                 Ok(Expression::from(pow(x, arg0(), self.num_digits).ok_or_else(errfn)?).into())
@@ -123,11 +123,11 @@ impl Visitor for Eval {
 
             ("cos", x, 0) => Ok(Expression::from(cos(x, self.num_digits)).into()),
 
-            ("tan", x, 0) => Ok(Expression::from(tan(x, self.num_digits)).into()),
+            ("tan", x, 0) if !cos(x.clone(), self.num_digits).is_zero() => Ok(Expression::from(tan(x, self.num_digits)).into()),
 
-            ("asin", x, 0) => Ok(Expression::from(asin(x, self.num_digits)).into()),
+            ("asin", x, 0) if x.abs() <= one() => Ok(Expression::from(asin(x, self.num_digits)).into()),
 
-            ("acos", x, 0) => Ok(Expression::from(acos(x, self.num_digits)).into()),
+            ("acos", x, 0) if x.abs() <= one() => Ok(Expression::from(acos(x, self.num_digits)).into()),
 
             ("atan", x, 0) => Ok(Expression::from(atan(x, self.num_digits)).into()),
 
@@ -135,11 +135,11 @@ impl Visitor for Eval {
 
             ("erfc", x, 0) => Ok(Expression::from(erfc(x, self.num_digits)).into()),
 
-            ("dnorm", x, 2) => {
+            ("dnorm", x, 2) if !arg1().is_zero() => {
                 Ok(Expression::from(dnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
-            ("pnorm", x, 2) => {
+            ("pnorm", x, 2) if !arg1().is_zero() => {
                 Ok(Expression::from(pnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
@@ -182,7 +182,7 @@ impl Visitor for Eval {
                 BinOp::Mul(_) => {
                     Ok(Expression::from(round(left * right, self.num_digits as i64)).into())
                 }
-                BinOp::Div(_) => {
+                BinOp::Div(_) if !right.is_zero() => {
                     Ok(Expression::from(round(left / right, self.num_digits as i64)).into())
                 }
                 BinOp::Lt(_) => Ok(Expression::from(left < right).into()),
-- 
2.43.0


From 1fcf71cffcc26d0cd7c80a9e2a9d39d3ddaeb28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:16 +0000
Subject: [PATCH 05/19] fix: expand distributes over negated sums and keeps the
 parentheses its terms need

---
 doctor-syn/src/transformation/expand.rs | 24 ++++++++++++-----
 doctor-syn/src/transformation/tools.rs  | 34 +++++++++++++++++++++++--
 2 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/doctor-syn/src/transformation/expand.rs b/doctor-syn/src/transformation/expand.rs
index ca441e5..dbb20b1 100644
--- a/doctor-syn/src/transformation/expand.rs
+++ b/doctor-syn/src/transformation/expand.rs
@@ -9,8 +9,14 @@ pub struct Expand {}
 
 // Get a series of additions/subtractions.
 fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
-    let expr = deparen(expr);
-    match expr {
+    let inner = deparen(expr);
+    match inner {
+        // A negated sum is distributed, too.
+        Expr::Unary(ExprUnary {
+            op: UnOp::Neg(_),
+            expr,
+            ..
+        }) => return match_sum(expr, sum, !is_negated),
         Expr::Binary(ExprBinary {
             left, op, right, ..
         }) => match op {
@@ -31,7 +37,7 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
                 match_sum(right, &mut right_sum, false)?;
                 for lhs in left_sum.iter() {
                     for rhs in right_sum.iter() {
-                        sum.push(make_binary(lhs.clone(), op.clone(), rhs.clone()));
+                        sum.push(make_product(lhs.clone(), op.clone(), rhs.clone()));
                     }
                 }
                 return Ok(());
@@ -40,10 +46,16 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
         },
         _ => {}
     }
+    // Keep the parentheses around operators that are not expanded.
+    let term = if is_op(inner) && is_paren(expr) {
+        make_paren(inner.clone())
+    } else {
+        inner.clone()
+    };
     if is_negated {
-        sum.push(negate(&expr));
+        sum.push(negate(&term));
     } else {
-        sum.push(expr.clone());
+        sum.push(term);
     }
     Ok(())
 }
@@ -55,7 +67,7 @@ impl Visitor for Expand {
             UnOp::Not(_) => Err(Error::UnsupportedExpr(exprunary.span())),
             UnOp::Neg(_) => {
                 let mut sum = Vec::new();
-                match_sum(deparen(&exprunary.expr), &mut sum, true)?;
+                match_sum(&exprunary.expr, &mut sum, true)?;
                 Ok(make_sum(&*sum))
             }
         }
diff --git a/doctor-syn/src/transformation/tools.rs b/doctor-syn/src/transformation/tools.rs
index a24eb7c..8b998b0 100644
--- a/doctor-syn/src/transformation/tools.rs
+++ b/doctor-syn/src/transformation/tools.rs
@@ -10,6 +10,11 @@ pub fn negate(expr: &Expr) -> Expr {
             expr,
             ..
         }) => *expr.clone(),
+        // Negation binds tighter than binary operators.
+        Expr::Binary(_) => make_unary(
+            UnOp::Neg(syn::token::Sub(Span::call_site())),
+            make_paren(expr.clone()),
+        ),
         _ => ExprUnary {
             attrs: vec![],
             op: UnOp::Neg(syn::token::Sub(Span::call_site())),
@@ -22,7 +27,7 @@ pub fn negate(expr: &Expr) -> Expr {
 // Strip parentheses.
 pub fn deparen(expr: &Expr) -> &Expr {
     match expr {
-        Expr::Paren(ExprParen { expr, .. }) => &*expr,
+        Expr::Paren(ExprParen { expr, .. }) => deparen(expr),
         _ => expr,
     }
 }
@@ -65,7 +70,16 @@ pub fn is_negated(expr: &Expr) -> bool {
     }
 }
 
-pub fn _is_paren(expr: &Expr) -> bool {
+// Unary and binary operators.
+pub fn is_op(expr: &Expr) -> bool {
+    match expr {
+        Expr::Unary(_) => true,
+        Expr::Binary(_) => true,
+        _ => false,
+    }
+}
+
+pub fn is_paren(expr: &Expr) -> bool {
     match expr {
         Expr::Paren(_) => true,
         _ => false,
@@ -99,3 +113,19 @@ pub fn make_unary(op: UnOp, expr: Expr) -> Expr {
     }
     .into()
 }
+
+// Make a product, parenthesising operands other than products that
+// would otherwise associate with the other operand.
+pub fn make_product(left: Expr, op: BinOp, right: Expr) -> Expr {
+    make_binary(paren_factor(left), op, paren_factor(right))
+}
+
+fn paren_factor(expr: Expr) -> Expr {
+    match expr {
+        Expr::Binary(ExprBinary {
+            op: BinOp::Mul(_), ..
+        }) => expr,
+        Expr::Binary(_) => make_paren(expr),
+        _ => expr,
+    }
+}
-- 
2.43.0


From fe5b978d0219bd0f0d2e057cbb83734f301e2854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:16 +0000
Subject: [PATCH 06/19] fix: paren() no longer writes to stdout

---
 doctor-syn/src/transformation/paren.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doctor-syn/src/transformation/paren.rs b/doctor-syn/src/transformation/paren.rs
index 4d9ef23..9e7ccdc 100644
--- a/doctor-syn/src/transformation/paren.rs
+++ b/doctor-syn/src/transformation/paren.rs
@@ -26,7 +26,6 @@ impl Visitor for Paren {
                 make_binary(left, op, right)
             }
             Expr::Unary(ExprUnary { op, expr, .. }) => {
-                println!("HERE");
                 let expr = parenthesise_op(*expr.clone());
                 make_unary(op, expr)
             }
-- 
2.43.0


From 943db80537e2dc0448c0c7e7265e00d6e6934057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:43 +0000
Subject: [PATCH 07/19] fix: substitution keeps the substituted value together

---
 doctor-syn/src/transformation/paren.rs | 12 +++++++++++-
 doctor-syn/src/transformation/subst.rs |  5 +++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/transformation/paren.rs b/doctor-syn/src/transformation/paren.rs
index 9e7ccdc..f461489 100644
--- a/doctor-syn/src/transformation/paren.rs
+++ b/doctor-syn/src/transformation/paren.rs
@@ -1,7 +1,7 @@
 use super::tools::*;
 use crate::error::Result;
 use crate::visitor::Visitor;
-use syn::{Expr, ExprBinary, ExprUnary};
+use syn::{Expr, ExprBinary, ExprUnary, Lit};
 
 #[derive(Debug)]
 pub struct Paren {}
@@ -10,10 +10,20 @@ pub fn parenthesise_op(expr: Expr) -> Expr {
     match expr {
         Expr::Binary(_) => make_paren(expr),
         Expr::Unary(_) => make_paren(expr),
+        Expr::Lit(ref lit) if is_negative(&lit.lit) => make_paren(expr),
         _ => expr,
     }
 }
 
+// Numbers converted to expressions can be negative.
+fn is_negative(lit: &Lit) -> bool {
+    match lit {
+        Lit::Float(f) => f.base10_digits().starts_with('-'),
+        Lit::Int(i) => i.base10_digits().starts_with('-'),
+        _ => false,
+    }
+}
+
 impl Visitor for Paren {
     fn visit_expr(&self, expr: &Expr) -> Result<Expr> {
         let expr = self.visit_expr_core(expr)?;
diff --git a/doctor-syn/src/transformation/subst.rs b/doctor-syn/src/transformation/subst.rs
index 65178e9..46e947d 100644
--- a/doctor-syn/src/transformation/subst.rs
+++ b/doctor-syn/src/transformation/subst.rs
@@ -1,3 +1,4 @@
+use super::paren::parenthesise_op;
 use crate::error::Result;
 use crate::visitor::Visitor;
 use crate::{Name, VariableList};
@@ -14,8 +15,8 @@ impl Visitor for Subst {
         //println!("visit_path {:?}", self);
         let name: Name = exprpath.path.clone().into();
         if let Some(res) = self.variables.find(&name) {
-            // Substitute.
-            Ok(res.into())
+            // Substitute, keeping the value together.
+            Ok(parenthesise_op(res.into()))
         } else {
             // Clone.
             Ok(exprpath.clone().into())
-- 
2.43.0


From 28aaca933c2fd28ee4c60c12d53ae01f8b64c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:22 +0000
Subject: [PATCH 08/19] fix: approx reports an error when there are no two
 different points to fit

---
 doctor-syn/src/transformation/approx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/doctor-syn/src/transformation/approx.rs b/doctor-syn/src/transformation/approx.rs
index f229652..c3ec95f 100644
--- a/doctor-syn/src/transformation/approx.rs
+++ b/doctor-syn/src/transformation/approx.rs
@@ -77,6 +77,14 @@ pub fn approx(
     parity: Parity,
     num_digits: i64,
 ) -> Result<Expression> {
+    // We need at least two different points.
+    if num_terms < 2 {
+        return Err(Error::WrongNumberOfTerms(expr.span()));
+    }
+    if !xmin.is_finite() || !xmax.is_finite() || xmin == xmax {
+        return Err(Error::CouldNotEvaulate(expr.to_string()));
+    }
+
     let xmin = bigdf(xmin);
     let xmax = bigdf(xmax);
 
-- 
2.43.0


From 8420ae367f041bbc2687c5b994fe3aca0fda597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:06 +0000
Subject: [PATCH 09/19] fix: generated Rust text keeps tokens apart and handles
 deep nesting

---
 doctor-syn/src/codegen/rust.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index 261d6e6..d98028f 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -1,8 +1,7 @@
-use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
 
-fn indent(depth: usize) -> &'static str {
-    let i = "                                                            ";
-    &i[0..depth * 2]
+fn indent(depth: usize) -> String {
+    " ".repeat(depth * 2)
 }
 
 fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
@@ -36,7 +35,7 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
                 text.extend(tt.to_string().chars());
             }
         }
-    } else if let TokenTree::Ident(_) = &tt {
+    } else if let TokenTree::Ident(_) | TokenTree::Literal(_) = &tt {
         let tok = tt.to_string();
         text.extend(tok.chars());
         text.extend(" ".chars());
@@ -56,7 +55,12 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
             // }
             _ => {
                 text.extend(tok.chars());
-                // text.extend(" ".chars());
+                // Only the characters of one operator may touch.
+                if let TokenTree::Punct(p) = &tt {
+                    if p.spacing() == Spacing::Alone {
+                        text.extend(" ".chars());
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 8561cf5d032856bf3cfb217d35b2183160d0ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:42 +0000
Subject: [PATCH 10/19] fix: exp, sin, cos, ln, powers, erf and qnorm keep
 their digits for large and negative arguments

---
 doctor-syn/src/bdmath.rs | 91 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 80 insertions(+), 11 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 2aaa949..cafffe4 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -52,7 +52,7 @@ fn test_round() {
 }
 
 pub fn pi(num_digits: i64) -> BigDecimal {
-    if num_digits < 100 {
+    if num_digits < 150 {
         let x : BigDecimal = "3.141592653589793238462643383279502884197169399375105820974944592307816406286208998628034825342117067982148086513282306647093844609550582231725359408128481".parse().unwrap();
         round(x, num_digits as i64)
     } else {
@@ -121,6 +121,9 @@ pub fn num_digits_for(num_bits: usize) -> i64 {
     }
 }
 
+/// The largest argument of exp that is evaluated.
+pub const MAX_EXPONENT: i32 = 100_000;
+
 // Evaluate MacLaurin series of exp-like functions (sin, cos, exp)
 // Note that we would prefer to use round(), but there are bugs in BigDecimal.
 fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigDecimal>>(
@@ -161,7 +164,20 @@ fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigD
     round(tot, num_digits as i64 + 1).normalized()
 }
 
+// Reduce the argument of sin and cos to -pi..pi, as the series needs many terms
+// and loses all digits for large arguments.
+fn reduce_angle(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    if x.abs() <= bigd(4) {
+        return x;
+    }
+    let integer_digits = x.with_scale(0).digits() as i64;
+    let two_pi = pi(num_digits + integer_digits + 2) * two();
+    let turns = round(&x / &two_pi, 0);
+    round(x - turns * two_pi, num_digits * 2 + 2)
+}
+
 pub fn sin(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    let x = reduce_angle(x, num_digits);
     maclaurin(x, num_digits, |i, tot, power, factorial| match i & 3 {
         1 => Some(tot + power / factorial),
         3 => Some(tot - power / factorial),
@@ -170,6 +186,7 @@ pub fn sin(x: BigDecimal, num_digits: i64) -> BigDecimal {
 }
 
 pub fn cos(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    let x = reduce_angle(x, num_digits);
     maclaurin(x, num_digits, |i, tot, power, factorial| match i & 3 {
         0 => Some(tot + power / factorial),
         2 => Some(tot - power / factorial),
@@ -178,6 +195,17 @@ pub fn cos(x: BigDecimal, num_digits: i64) -> BigDecimal {
 }
 
 pub fn exp(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    // The series loses digits for negative arguments and is slow for large ones.
+    if x < bigd(-3) * BigDecimal::from(num_digits + 2) {
+        return zero();
+    }
+    if x < -one() {
+        return round(one() / exp(-x, num_digits), num_digits + 1).normalized();
+    }
+    if x > bigd(4) {
+        let root = exp(x * half(), num_digits + 1);
+        return round(&root * &root, num_digits + 1).normalized();
+    }
     maclaurin(x, num_digits, |_i, tot, power, factorial| {
         Some(tot + power / factorial)
     })
@@ -240,12 +268,24 @@ pub fn ln(mut x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
         return None;
     }
 
+    // Take out powers of ten, which are cheaper and more accurate than the steps below.
+    let digits = x.digits() as i64;
+    let (bigint, scale) = x.into_bigint_and_exponent();
+    let tens = digits - 1 - scale;
+    if tens > 1 || tens < -1 {
+        let mantissa = BigDecimal::new(bigint, digits - 1);
+        let ln10 = ln(bigd(10), num_digits + 20)?;
+        let res = ln(mantissa, num_digits + 1)? + ln10 * BigDecimal::from(tens);
+        return Some(round(res, num_digits + 1).normalized());
+    }
+    x = BigDecimal::new(bigint, scale);
+
     let mut extra = bigd(0);
     let h = half();
     if &x >= &one() {
         // Reduce to exp(0)..exp(0.5)
         let lim = exp(h.clone(), num_digits);
-        let scale = exp(-h.clone(), num_digits);
+        let scale = exp(-h.clone(), num_digits + 5);
         while x >= lim {
             extra += &h;
             x *= &scale;
@@ -265,7 +305,7 @@ pub fn ln(mut x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
     } else {
         // Reduce to exp(-0.5)..exp(0)
         let lim = exp(-h.clone(), num_digits);
-        let scale = exp(h.clone(), num_digits);
+        let scale = exp(h.clone(), num_digits + 5);
         while x <= lim {
             extra -= &h;
             x *= &scale;
@@ -297,8 +337,29 @@ pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> Option<BigDecima
 }
 
 pub fn pow(x: BigDecimal, y: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
-    if let Some(lnx) = ln(x, num_digits) {
-        Some(exp(y * lnx, num_digits))
+    if y.is_zero() {
+        return Some(one());
+    }
+    if x.is_zero() {
+        return if y.is_negative() { None } else { Some(zero()) };
+    }
+    if x.is_negative() {
+        // Only integer powers of negative numbers are real numbers.
+        let half_y = &y * half();
+        if round(y.clone(), 0) != y {
+            return None;
+        }
+        let res = pow(-x, y, num_digits)?;
+        return if round(half_y.clone(), 0) == half_y { Some(res) } else { Some(-res) };
+    }
+    // The error of the logarithm is multiplied by y.
+    let extra = y.with_scale(0).digits() as i64 + 2;
+    if let Some(lnx) = ln(x, num_digits + extra) {
+        let exponent = y * lnx;
+        if exponent > bigd(MAX_EXPONENT) {
+            return None;
+        }
+        Some(exp(exponent, num_digits))
     } else {
         None
     }
@@ -309,9 +370,15 @@ pub fn pow(x: BigDecimal, y: BigDecimal, num_digits: i64) -> Option<BigDecimal>
 /// 1       -3        10      -42      216
 /// 1 * 1!  -3 * 1!   5 * 2!  -7 * 3!  9 * 4!
 pub fn erf(x: BigDecimal, num_digits: i64) -> BigDecimal {
-    two() / sqrt(pi(num_digits), num_digits).unwrap()
+    // erfc(x) is less than exp(-x*x).
+    if &x * &x > bigd(3) * BigDecimal::from(num_digits + 2) {
+        return x.signum();
+    }
+    // The terms are as large as exp(x*x).
+    let work_digits = num_digits + num_digits / 2 + 5;
+    two() / sqrt(pi(work_digits), work_digits).unwrap()
         * &x
-        * maclaurin(&x * &x, num_digits, |i, tot, power, factorial| {
+        * maclaurin(&x * &x, work_digits, |i, tot, power, factorial| {
             match i & 1 {
                 0 => Some(tot + power / (bigd(2 * i + 1) * factorial)),
                 1 => Some(tot - power / (bigd(2 * i + 1) * factorial)),
@@ -388,15 +455,17 @@ pub fn qnorm(
         // if x.abs() < bigdf(0.01) {
         //     guess = bigdf(0.0);
         // }
-        let mut guess = bigdf(0.0);
+        // From the mean, which is the point of inflection, the steps never overshoot.
+        let mut guess = mean.clone();
+        let digits = num_digits + 10;
         loop {
             // println!("guess={}", guess);
-            let pnorm = pnorm(guess.clone(), mean.clone(), sd.clone(), num_digits);
+            let pnorm = pnorm(guess.clone(), mean.clone(), sd.clone(), digits);
             let err = pnorm - &x;
-            if round(err.abs(), num_digits).is_zero() {
+            if round(err.abs(), num_digits + 5).is_zero() {
                 break;
             }
-            let dnorm = dnorm(guess.clone(), mean.clone(), sd.clone(), num_digits);
+            let dnorm = dnorm(guess.clone(), mean.clone(), sd.clone(), digits);
             guess -= err / dnorm;
         }
         Some(round(guess, num_digits))
-- 
2.43.0


From 511f3baa8f071b9734cd7c5a080e63b854538b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:42 +0000
Subject: [PATCH 11/19] fix: eval reports unreadable literals, fields and
 arguments out of reach as errors

---
 doctor-syn/src/transformation/eval.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index 2c1d58c..da38d6d 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -9,7 +9,7 @@ use crate::visitor::Visitor;
 use crate::Expression;
 
 use std::convert::TryInto;
-use syn::{BinOp, Expr, ExprBinary, ExprMethodCall, ExprParen, ExprPath, ExprUnary, UnOp};
+use syn::{BinOp, Expr, ExprBinary, ExprField, ExprMethodCall, ExprParen, ExprPath, ExprUnary, UnOp};
 
 use crate::bdmath::*;
 
@@ -22,12 +22,22 @@ fn eval_err(e: Expr) -> Error {
     Error::CouldNotEvaulate(Expression::from(e).to_string())
 }
 
+// sin, cos and tan need as many digits of pi as the angle has.
+fn is_angle(x: &BigDecimal) -> bool {
+    x.abs() <= BigDecimal::new(BigInt::one(), -50)
+}
+
 impl Visitor for Eval {
     // eg. "(x)"
     fn visit_paren(&self, exprparen: &ExprParen) -> Result<Expr> {
         self.visit_expr(&exprparen.expr)
     }
 
+    // eg. "x.y"
+    fn visit_field(&self, exprfield: &ExprField) -> Result<Expr> {
+        Err(eval_err(exprfield.clone().into()))
+    }
+
     fn visit_method_call(&self, expr: &ExprMethodCall) -> Result<Expr> {
         // println!("visit_method_call {:?}", expr);
         let receiver: Expression = self.visit_expr(&expr.receiver)?.into();
@@ -82,7 +92,7 @@ impl Visitor for Eval {
 
             ("sqrt", x, 0) => Ok(Expression::from(x.sqrt().ok_or_else(errfn)?).into()),
 
-            ("exp", x, 0) => Ok(Expression::from(exp(x, self.num_digits)).into()),
+            ("exp", x, 0) if x <= bigd(MAX_EXPONENT) => Ok(Expression::from(exp(x, self.num_digits)).into()),
 
             ("exp2", x, 0) => {
                 Ok(Expression::from(pow(two(), x, self.num_digits).ok_or_else(errfn)?).into())
@@ -119,11 +129,11 @@ impl Visitor for Eval {
             //     .hypot(arg0().try_into()?)
             //     .try_into()?
             //     .into()),
-            ("sin", x, 0) => Ok(Expression::from(sin(x, self.num_digits)).into()),
+            ("sin", x, 0) if is_angle(&x) => Ok(Expression::from(sin(x, self.num_digits)).into()),
 
-            ("cos", x, 0) => Ok(Expression::from(cos(x, self.num_digits)).into()),
+            ("cos", x, 0) if is_angle(&x) => Ok(Expression::from(cos(x, self.num_digits)).into()),
 
-            ("tan", x, 0) if !cos(x.clone(), self.num_digits).is_zero() => Ok(Expression::from(tan(x, self.num_digits)).into()),
+            ("tan", x, 0) if is_angle(&x) && !cos(x.clone(), self.num_digits).is_zero() => Ok(Expression::from(tan(x, self.num_digits)).into()),
 
             ("asin", x, 0) if x.abs() <= one() => Ok(Expression::from(asin(x, self.num_digits)).into()),
 
@@ -174,8 +184,8 @@ impl Visitor for Eval {
         let right: Expression = self.visit_expr(&exprbinary.right)?.into();
 
         if left.is_numeric() && right.is_numeric() {
-            let left: BigDecimal = left.try_into().unwrap();
-            let right: BigDecimal = right.try_into().unwrap();
+            let left: BigDecimal = left.try_into()?;
+            let right: BigDecimal = right.try_into()?;
             match exprbinary.op {
                 BinOp::Add(_) => Ok(Expression::from(left + right).into()),
                 BinOp::Sub(_) => Ok(Expression::from(left - right).into()),
@@ -201,7 +211,7 @@ impl Visitor for Eval {
     fn visit_unary(&self, exprunary: &ExprUnary) -> Result<Expr> {
         let expr: Expression = self.visit_expr(&exprunary.expr)?.into();
         if expr.is_numeric() {
-            let expr: BigDecimal = expr.try_into().unwrap();
+            let expr: BigDecimal = expr.try_into()?;
             match exprunary.op {
                 // UnOp::Deref(_) => (),
                 // UnOp::Not(_) => (),
-- 
2.43.0


From 23e0f9c1ceb37db1467e2c8dc02d99b7d284d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:56 +0000
Subject: [PATCH 12/19] fix: recip of numbers beyond the range of f64 did not
 end

---
 doctor-syn/src/transformation/eval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index da38d6d..64531e7 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -80,7 +80,8 @@ impl Visitor for Eval {
             //     .try_into()?
 
             //     .into()),
-            ("recip", x, 0) if !x.is_zero() => Ok(Expression::from(x.inverse()).into()),
+            // BigDecimal::inverse does not end for numbers that f64 cannot hold.
+            ("recip", x, 0) if !x.is_zero() => Ok(Expression::from(one() / x).into()),
 
             ("powi", x, 1) => {
                 Ok(Expression::from(pow(x, arg0(), self.num_digits).ok_or_else(errfn)?).into())
-- 
2.43.0


From cadb42fcf6e389140bd45406b69361276c0d026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:56 +0000
Subject: [PATCH 13/19] fix: functions settle at few digits, erf keeps its
 digits for large arguments, powers by huge exponents end

---
 doctor-syn/src/bdmath.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index cafffe4..23f5248 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -137,11 +137,13 @@ fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigD
     let mut i = 0;
     // let imax = x.digits() as i32 * 10;
     let imax = 30000;
+    // Some more digits, as few digits may never settle.
+    let work_digits = num_digits * 2 + 5;
     loop {
         let new_tot = f(i, &tot, &power, &factorial);
 
         if let Some(new_tot) = new_tot {
-            let new_tot = round(new_tot, num_digits as i64 * 2);
+            let new_tot = round(new_tot, work_digits);
             // println!(
             //     "new_tot={} power={} factorial={}",
             //     new_tot, power, factorial
@@ -158,7 +160,7 @@ fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigD
         power *= &x;
         i += 1;
         factorial *= bigd(i);
-        power = round(power, num_digits as i64 * 2);
+        power = round(power, work_digits);
     }
 
     round(tot, num_digits as i64 + 1).normalized()
@@ -337,7 +339,7 @@ pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> Option<BigDecima
 }
 
 pub fn pow(x: BigDecimal, y: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
-    if y.is_zero() {
+    if y.is_zero() || x == one() {
         return Some(one());
     }
     if x.is_zero() {
@@ -354,6 +356,9 @@ pub fn pow(x: BigDecimal, y: BigDecimal, num_digits: i64) -> Option<BigDecimal>
     }
     // The error of the logarithm is multiplied by y.
     let extra = y.with_scale(0).digits() as i64 + 2;
+    if extra > 200 {
+        return None;
+    }
     if let Some(lnx) = ln(x, num_digits + extra) {
         let exponent = y * lnx;
         if exponent > bigd(MAX_EXPONENT) {
@@ -374,17 +379,15 @@ pub fn erf(x: BigDecimal, num_digits: i64) -> BigDecimal {
     if &x * &x > bigd(3) * BigDecimal::from(num_digits + 2) {
         return x.signum();
     }
-    // The terms are as large as exp(x*x).
-    let work_digits = num_digits + num_digits / 2 + 5;
-    two() / sqrt(pi(work_digits), work_digits).unwrap()
-        * &x
-        * maclaurin(&x * &x, work_digits, |i, tot, power, factorial| {
-            match i & 1 {
-                0 => Some(tot + power / (bigd(2 * i + 1) * factorial)),
-                1 => Some(tot - power / (bigd(2 * i + 1) * factorial)),
-                _ => None,
-            }
-        })
+    // The terms of 2/sqrt(pi) * exp(-x*x) * (x + 2*x^3/3 + 4*x^5/15 + ..) all have the same sign.
+    let x2 = &x * &x;
+    let work_digits = num_digits + (&x2 * half()).with_scale(0).to_i64().unwrap_or(0) + 5;
+    let mut denom = one();
+    let sum = maclaurin(two() * &x2, num_digits + 5, |i, tot, power, _factorial| {
+        denom *= bigd(2 * i + 1);
+        Some(tot + power / &denom)
+    });
+    two() / sqrt(pi(num_digits + 5), num_digits + 5).unwrap() * x * exp(-x2, work_digits) * sum
 }
 
 /// erfc(x) = 2*pnorm(-sqrt(2)*x)
-- 
2.43.0


From ff704ca102cc4505c7e1c006270a31d847f70c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:19 +0000
Subject: [PATCH 14/19] fix: an approximation whose points coincide is an
 error, not a division by zero

---
 doctor-syn/src/transformation/approx.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doctor-syn/src/transformation/approx.rs b/doctor-syn/src/transformation/approx.rs
index c3ec95f..f4ce85a 100644
--- a/doctor-syn/src/transformation/approx.rs
+++ b/doctor-syn/src/transformation/approx.rs
@@ -97,6 +97,10 @@ pub fn approx(
     for i in 0..num_terms {
         // *almost* Chebyshev nodes.
         let x = &a - &c * cos(BigDecimal::from_usize(i).unwrap() * &b, num_digits);
+        // With few digits and many terms, points can coincide.
+        if xvalues.iter().any(|v| *v == x) {
+            return Err(Error::CouldNotEvaulate(expr.to_string()));
+        }
         let mut vars = VariableList::new();
         vars.add_var(variable.clone(), mkexpr(&x).into());
         let subst = expr.subst(vars)?;
-- 
2.43.0


From 30ef5d0985f379e7d53ab94b54b2c2f52a28403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 15/19] fix: keep the tokens of an invisible group apart from
 the next token

---
 doctor-syn/src/codegen/rust.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index d98028f..2c23ebb 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -32,7 +32,9 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
                 }
             }
             Delimiter::None => {
+                // Nothing else keeps this apart from the next token.
                 text.extend(tt.to_string().chars());
+                text.extend(" ".chars());
             }
         }
     } else if let TokenTree::Ident(_) | TokenTree::Literal(_) = &tt {
-- 
2.43.0


From 8eb98a33947952fec366eb55b4032f6ec4a1990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 16/19] fix: ONE_BITS, ONE_MASK and runif have the integer
 types they are used with

---
 libmgen/src/auxfuncs.rs     | 8 ++++----
 libmgen/src/stats_random.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 551f127..640d3a6 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -49,12 +49,12 @@ pub fn gen_INF(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_BITS: fty = 0x3f800000_u32;
+            const ONE_BITS: uty = 0x3f800000_u32;
         )
     
     } else {
         quote!(
-            const ONE_BITS: fty = 0x3ff0000000000000_u64;
+            const ONE_BITS: uty = 0x3ff0000000000000_u64;
         )
     }
 }
@@ -63,12 +63,12 @@ pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_MASK(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_MASK: fty = 0x007fffff_u32;
+            const ONE_MASK: uty = 0x007fffff_u32;
         )
     
     } else {
         quote!(
-            const ONE_MASK: fty = 0x000fffffffffffff_u64;
+            const ONE_MASK: uty = 0x000fffffffffffff_u64;
         )
     }
 }
diff --git a/libmgen/src/stats_random.rs b/libmgen/src/stats_random.rs
index 815c695..9b271aa 100644
--- a/libmgen/src/stats_random.rs
+++ b/libmgen/src/stats_random.rs
@@ -7,10 +7,10 @@ pub fn gen_runif(num_terms: usize, config: &Config) -> TokenStream {
         /// See https://xorshift.di.unimi.it/splitmix64.c
         /// Returns half-close range 0-1
         pub fn runif(index: usize, min: fty, max: fty) -> fty {
-            let z : uty = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
-            let z1 : uty = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
-            let z2 : uty = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
-            let z3 : uty = z2 ^ (z2 >> 31);
+            let z : u64 = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
+            let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
+            let z3 : u64 = z2 ^ (z2 >> 31);
             let x : fty = fty::from_bits((z3 as uty >> 2) | ONE_BITS) - 1.0;
             (x * (max - min)) + min
         }
-- 
2.43.0


From 6d46de77c4a1174bbc6b27f0a5914b555355270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 17/19] fix: functions list everything they use as
 dependencies, in order

---
 libmgen/src/functions.rs | 164 +++++++++++++++++++--------------------
 1 file changed, 82 insertions(+), 82 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 0d5d848..082a44e 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -94,189 +94,189 @@ pub static FUNCTIONS: &[Function] = &[
     // },
     Function {
         name: "LOG2_SHIFT",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_SHIFT),
         test_specs: &[],
     },
     Function {
         name: "LOG2_OFFSET",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_OFFSET),
         test_specs: &[],
     },
     Function {
         name: "NAN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_NAN),
         test_specs: &[],
     },
     Function {
         name: "INFINITY",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_INF),
         test_specs: &[],
     },
     Function {
         name: "MIN_POSITIVE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_MIN_POSITIVE),
         test_specs: &[],
     },
     Function {
         name: "ONE_MASK",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_MASK),
         test_specs: &[],
     },
     Function {
         name: "ONE_BITS",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_BITS),
         test_specs: &[],
     },
     Function {
         name: "EXP2_ONE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_ONE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_SCALE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_SCALE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MIN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MIN),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MAX",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MAX),
         test_specs: &[],
     },
     Function {
         name: "ONE_THIRD",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_THIRD),
         test_specs: &[],
     },
     Function {
         name: "TWO_THIRDS",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TWO_THIRDS),
         test_specs: &[],
     },
     Function {
         name: "PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_2",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_2),
         test_specs: &[],
     },
     Function {
         name: "TAN_PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TAN_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_10",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_10),
         test_specs: &[],
     },
     Function {
         name: "RECIP_PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_PI),
         test_specs: &[],
     },
     Function {
         name: "RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "SQRT_RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_SQRT_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "negate_on_odd",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_negate_on_odd),
         test_specs: &[],
     },
     Function {
         name: "recip_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_recip_approx),
         test_specs: &[],
     },
     Function {
         name: "sqrt_approx",
-        deps: &["fty", "uty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_sqrt_approx),
         test_specs: &[],
     },
     Function {
         name: "cbrt_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_cbrt_approx),
         test_specs: &[],
@@ -293,48 +293,6 @@ pub static FUNCTIONS: &[Function] = &[
             test: TestType::MaxAbs("0", "1", 1.0, 1.0, 237),
         }],
     },
-    Function {
-        name: "sinh",
-        deps: &["fty"],
-        num_terms: [16, 24],
-        gen: Some(crate::hyperbolic::gen_sinh),
-        test_specs: &[],
-    },
-    Function {
-        name: "cosh",
-        deps: &["fty"],
-        num_terms: [16, 24],
-        gen: Some(crate::hyperbolic::gen_cosh),
-        test_specs: &[],
-    },
-    Function {
-        name: "tanh",
-        deps: &["fty"],
-        num_terms: [16, 24],
-        gen: Some(crate::hyperbolic::gen_tanh),
-        test_specs: &[],
-    },
-    Function {
-        name: "asinh",
-        deps: &["fty", "ln"],
-        num_terms: [16, 24],
-        gen: Some(crate::hyperbolic::gen_asinh),
-        test_specs: &[],
-    },
-    Function {
-        name: "acosh",
-        deps: &["fty", "NAN", "ln"],
-        num_terms: [16, 24],
-        gen: Some(crate::hyperbolic::gen_acosh),
-        test_specs: &[],
-    },
-    Function {
-        name: "atanh",
-        deps: &["fty", "ln"],
-        num_terms: [16, 24],
-        gen: Some(crate::hyperbolic::gen_atanh),
-        test_specs: &[],
-    },
     Function {
         name: "asin",
         deps: &["fty", "PI_BY_2"],
@@ -377,21 +335,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "atan",
-        deps: &["fty"],
+        deps: &["fty", "PI_BY_2"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan),
         test_specs: &[],
     },
     Function {
         name: "atan2",
-        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8"],
+        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8", "PI"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan2),
         test_specs: &[],
     },
     Function {
         name: "exp2",
-        deps: &["fty", "ity", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX"],
+        deps: &["fty", "ity", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX", "round", "INFINITY"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp2),
         test_specs: &[
@@ -437,7 +395,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "exp_m1",
-        deps: &["fty", "exp2"],
+        deps: &["fty", "exp2", "uty", "round", "EXP2_ONE", "EXP2_SCALE", "LOG2_E", "exp"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp_m1),
         test_specs: &[
@@ -457,7 +415,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "log2",
-        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY"],
+        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY", "uty", "ity"],
         num_terms: [10, 20],
         gen: Some(crate::log_exp::gen_log2),
         test_specs: &[
@@ -491,7 +449,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "ln",
-        deps: &["log2", "RECIP_LOG2_E"],
+        deps: &["log2", "RECIP_LOG2_E", "fty"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_ln),
         test_specs: &[
@@ -511,7 +469,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "log10",
-        deps: &["log2", "RECIP_LOG2_10"],
+        deps: &["log2", "RECIP_LOG2_10", "fty"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_log10),
         test_specs: &[
@@ -558,11 +516,53 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "powi",
-        deps: &["fty", "log2", "exp2"],
+        deps: &["fty", "log2", "exp2", "ity", "powf"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_powi),
         test_specs: &[],
     },
+    Function {
+        name: "sinh",
+        deps: &["fty", "LOG2_E", "exp2"],
+        num_terms: [16, 24],
+        gen: Some(crate::hyperbolic::gen_sinh),
+        test_specs: &[],
+    },
+    Function {
+        name: "cosh",
+        deps: &["fty", "LOG2_E", "exp2"],
+        num_terms: [16, 24],
+        gen: Some(crate::hyperbolic::gen_cosh),
+        test_specs: &[],
+    },
+    Function {
+        name: "tanh",
+        deps: &["fty", "LOG2_E", "exp2"],
+        num_terms: [16, 24],
+        gen: Some(crate::hyperbolic::gen_tanh),
+        test_specs: &[],
+    },
+    Function {
+        name: "asinh",
+        deps: &["fty", "ln"],
+        num_terms: [16, 24],
+        gen: Some(crate::hyperbolic::gen_asinh),
+        test_specs: &[],
+    },
+    Function {
+        name: "acosh",
+        deps: &["fty", "NAN", "ln"],
+        num_terms: [16, 24],
+        gen: Some(crate::hyperbolic::gen_acosh),
+        test_specs: &[],
+    },
+    Function {
+        name: "atanh",
+        deps: &["fty", "ln"],
+        num_terms: [16, 24],
+        gen: Some(crate::hyperbolic::gen_atanh),
+        test_specs: &[],
+    },
     Function {
         name: "sqrt",
         deps: &["fty", "sqrt_approx"],
@@ -572,7 +572,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "cbrt",
-        deps: &["fty", "ONE_THIRD", "TWO_THIRDS"],
+        deps: &["fty", "ONE_THIRD", "TWO_THIRDS", "uty", "EXP2_ONE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_cbrt),
         test_specs: &[],
@@ -586,14 +586,14 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "hypot",
-        deps: &["fty"],
+        deps: &["fty", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_hypot),
         test_specs: &[],
     },
     Function {
         name: "runif",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ONE_BITS"],
         num_terms: [0, 0],
         gen: Some(crate::stats_random::gen_runif),
         test_specs: &[
@@ -628,7 +628,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "qnorm",
-        deps: &["fty", "sqrt", "log2"],
+        deps: &["fty", "sqrt", "log2", "recip"],
         num_terms: [16, 32],
         gen: Some(crate::stats_norm::gen_qnorm),
         test_specs: &[
@@ -726,7 +726,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "tan",
-        deps: &["fty", "RECIP_PI"],
+        deps: &["fty", "RECIP_PI", "round", "recip"],
         num_terms: [12, 24],
         gen: Some(crate::trig::gen_tan),
         test_specs: &[
-- 
2.43.0


From 11e5a3775db45641f41904a958f5d891a64b5011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 18/19] fix: messages about excluded functions stay out of the
 generated text

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 082a44e..3fa55bd 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -28,7 +28,7 @@ pub fn get_functions_and_deps<'a>(names: &'a Vec<String>, exclude: &'a Vec<Strin
     while !stack.is_empty() {
         let name = stack.pop().unwrap();
         if exclude.contains(&name) {
-            println!("ignoring {}", name);
+            eprintln!("ignoring {}", name);
             continue;
         }
         if let Some(f) = FUNCTIONS.iter()
-- 
2.43.0


From b63583a771f5831efd35a579cbec5a9dfe14f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 19/19] fix: the series of a logarithm to thousands of digits
 panicked

---
 doctor-syn/src/bdmath.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 23f5248..d553af5 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -136,7 +136,8 @@ fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigD
     let mut tot = BigDecimal::zero();
     let mut i = 0;
     // let imax = x.digits() as i32 * 10;
-    let imax = 30000;
+    // Every digit needs up to 16 terms.
+    let imax = 30000 + num_digits as i32 * 20;
     // Some more digits, as few digits may never settle.
     let work_digits = num_digits * 2 + 5;
     loop {
-- 
2.43.0

