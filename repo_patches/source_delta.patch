From 6eb091140d189a71b9d4dd90eefb3a61a4330171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 01/40] fix: print nested powers, polynomial terms and repeated
 negative factors without losing grouping or factors

---
 src/core/display.rs | 56 ++++++++++++++++++++++++++++++++++++++++++---
 src/core/poly.rs    |  8 ++++++-
 2 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index f33f6ee..9a7ce1c 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -191,7 +191,12 @@ fn analyze_negative(expr: &Expr) -> NegativeExtraction<'_> {
 /// Helper for Power base parenthesis
 fn needs_parens_as_base(expr: &Expr) -> bool {
     match &expr.kind {
-        ExprKind::Sum(_) | ExprKind::Product(_) | ExprKind::Div(_, _) | ExprKind::Poly(_) => true,
+        ExprKind::Sum(_)
+        | ExprKind::Product(_)
+        | ExprKind::Div(_, _)
+        | ExprKind::Pow(_, _) // (a^b)^c is not a^b^c
+        | ExprKind::Derivative { .. }
+        | ExprKind::Poly(_) => true,
         ExprKind::Number(n) => *n < 0.0, // Negative numbers need parens: (-1)^x not -1^x
         _ => false,
     }
@@ -433,6 +438,10 @@ fn format_product_expr(
                     write!(f, "{sep}")?;
                 }
                 format_negative_part(f, next_neg, mode, ParenContext::SumOrProduct, cache)?;
+                for fac in &factors[2..] {
+                    write!(f, "{sep}")?;
+                    format_wrapped(f, fac, mode, ParenContext::SumOrProduct, cache)?;
+                }
             }
         }
 
@@ -589,6 +598,47 @@ fn format_pow_expr(
     }
 }
 
+/// Polynomial formatting for the LaTeX and Unicode notations
+fn format_poly_expr(
+    f: &mut fmt::Formatter<'_>,
+    poly: &crate::core::poly::Polynomial,
+    mode: FormatMode,
+    cache: Option<&SymbolCache>,
+) -> fmt::Result {
+    if poly.terms().is_empty() {
+        return write!(f, "0");
+    }
+    let (minus, sep) = match mode {
+        FormatMode::Standard => ("-", "*"),
+        FormatMode::Latex => ("-", r" \cdot "),
+        FormatMode::Unicode => ("\u{2212}", "\u{b7}"),
+    };
+    for (i, &(pow, coeff)) in poly.terms().iter().enumerate() {
+        match (i == 0, coeff < 0.0) {
+            (true, true) => write!(f, "{minus}")?,
+            (true, false) => {}
+            (false, true) => write!(f, " {minus} ")?,
+            (false, false) => write!(f, " + ")?,
+        }
+        let abs_coeff = coeff.abs();
+        if pow == 0 {
+            format_number_expr(f, abs_coeff, mode)?;
+            continue;
+        }
+        if (abs_coeff - 1.0).abs() >= EPSILON {
+            format_number_expr(f, abs_coeff, mode)?;
+            write!(f, "{sep}")?;
+        }
+        if pow == 1 {
+            format_wrapped(f, poly.base(), mode, ParenContext::SumOrProduct, cache)?;
+        } else {
+            let exponent = Expr::number(f64::from(pow));
+            format_pow_expr(f, poly.base(), &exponent, mode, cache)?;
+        }
+    }
+    Ok(())
+}
+
 /// Unified Function Call formatting
 #[allow(
     clippy::too_many_lines,
@@ -1184,7 +1234,7 @@ fn format_latex(
         }
 
         // Poly: display inline in LaTeX
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Latex, cache),
     }
 }
 
@@ -1286,7 +1336,7 @@ fn format_unicode(
         }
 
         // Poly: display inline in unicode
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Unicode, cache),
     }
 }
 
diff --git a/src/core/poly.rs b/src/core/poly.rs
index fbf3ce8..7a45214 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -87,13 +87,19 @@ impl Polynomial {
                 | ExprKind::Div(_, _)
                 | ExprKind::Poly(_)
                 | ExprKind::Pow(_, _)
+                | ExprKind::Derivative { .. }
         ) || (matches!(self.base.kind, ExprKind::Number(n) if n < 0.0));
 
         if pow == 0 {
             write!(f, "{}", format_coeff(coeff))
         } else if (coeff - 1.0).abs() < EPSILON {
             if pow == 1 {
-                write!(f, "{}", self.base)
+                // A sum as base must stay grouped: its sign belongs to the whole term
+                if matches!(self.base.kind, ExprKind::Sum(_) | ExprKind::Poly(_)) {
+                    write!(f, "({})", self.base)
+                } else {
+                    write!(f, "{}", self.base)
+                }
             } else if needs_parens_pow {
                 write!(f, "({})^{}", self.base, pow)
             } else {
-- 
2.43.0


From 878a88f92c4469f37a195bec926e9650d8a67524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 02/40] fix: valid LaTeX for floor, ceil and derivative orders
 above nine

---
 src/core/display.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index 9a7ce1c..a69e194 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -692,7 +692,7 @@ fn format_function_call_expr(
             "floor" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lfloor{}\rfloor",
+                    r"\lfloor {} \rfloor",
                     LatexFormatter {
                         expr: &args[0],
                         cache
@@ -702,7 +702,7 @@ fn format_function_call_expr(
             "ceil" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lceil{}\rceil",
+                    r"\lceil {} \rceil",
                     LatexFormatter {
                         expr: &args[0],
                         cache
@@ -1224,7 +1224,7 @@ fn format_latex(
             } else {
                 write!(
                     f,
-                    r"\frac{{\partial^{} {}}}{{\partial {}^{}}}",
+                    r"\frac{{\partial^{{{}}} {}}}{{\partial {}^{{{}}}}}",
                     order,
                     LatexFormatter { expr: inner, cache },
                     var,
-- 
2.43.0


From 672e66acdc3c9cd280f444da314ab6b6543432b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 03/40] fix: parser rejects trailing tokens and reads nested
 derivative notation

---
 src/core/display.rs |   7 +-
 src/parser/lexer.rs | 254 +++++++++++++++++++-------------------------
 src/parser/pratt.rs |  24 ++++-
 3 files changed, 137 insertions(+), 148 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index a69e194..fd215fc 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -1156,7 +1156,12 @@ impl fmt::Display for Expr {
             ExprKind::Pow(u, v) => format_pow_expr(f, u, v, FormatMode::Standard, None),
 
             ExprKind::Derivative { inner, var, order } => {
-                write!(f, "\u{2202}^{order}_{inner}/\u{2202}_{var}^{order}")
+                // Anything but a function call is grouped, so that the notation stays readable
+                if matches!(inner.kind, ExprKind::FunctionCall { .. }) {
+                    write!(f, "\u{2202}^{order}_{inner}/\u{2202}_{var}^{order}")
+                } else {
+                    write!(f, "\u{2202}^{order}_({inner})/\u{2202}_{var}^{order}")
+                }
             }
 
             // Poly: display inline using Polynomial's Display
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3cf4062..55a44f1 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -217,80 +217,91 @@ enum RawToken<'src> {
     reason = "Slicing is safe because len is calculated from utf8 lengths"
 )]
 fn scan_derivative_notation(input: &str) -> Result<&str, DiffError> {
-    let mut chars = input.chars().peekable();
-    let mut len = 0;
-    let mut depth = 0;
-
-    // chars is already positioned at start of input. Check for ∂
-    if chars.peek() == Some(&'\u{2202}') {
-        let c = chars.next().expect("Checked peek");
-        len += c.len_utf8();
-    } else {
-        // This function expects to be called when ∂ is detected
-        // but we handle the case where it's not starting with it if needed,
-        // though the caller (lexer) checks it.
+    match split_derivative_notation(input) {
+        Some(parts) => Ok(&input[..parts.len]),
+        None => Err(DiffError::invalid_token(format!(
+            "Incomplete derivative notation: {input}"
+        ))),
     }
+}
 
-    while let Some(&next_c) = chars.peek() {
-        // Decision logic based on CURRENT depth
-        let accept = if depth > 0 {
-            // Inside parens, accept everything except unmatched closing
-            true
-        } else {
-            // Top level: accept specific chars for derivative notation
-            next_c.is_alphanumeric()
-                || next_c == '_'
-                || next_c == '\u{2202}'
-                || next_c == '^'
-                || next_c == '/'
-                || next_c == '('
-                || next_c == ')'
-                || next_c == ','
-        };
-
-        if !accept {
-            break;
-        }
-
-        chars.next(); // Consume
-        len += next_c.len_utf8();
+/// The parts of `∂^order_func(args)/∂_var^order`
+struct DerivativeParts<'src> {
+    /// Order on the left, if written
+    order: Option<&'src str>,
+    /// Function name; empty when a parenthesized expression is differentiated
+    func: &'src str,
+    /// Text between the parentheses, if there are any
+    args: Option<&'src str>,
+    /// Variable of differentiation
+    var: &'src str,
+    /// Order on the right, if written
+    var_order: Option<&'src str>,
+    /// Total length in bytes
+    len: usize,
+}
 
-        // Update depth AFTER consuming
-        match next_c {
-            '(' => depth += 1,
-            ')' => {
-                if depth > 0 {
-                    depth -= 1;
-                } else {
-                    // Unmatched closing paren at top level - stop here
-                    // This logic mirrors the original: break on unmatched closing paren
-                    // However, we consumed it.
-                    // "Unmatched closing paren at top level - stop here"
-                    // Original code:
-                    // seq.push(next_c); chars.next();
-                    // if depth > 0 { depth -= 1 } else { break }
-                    // So it INCLUDED the closing paren in seq, then broke loop.
-                    // Wait, if depth == 0, break.
-                    // So ")(x" -> seq includes ")".
-                    // But then it breaks.
-                    // Let's verify original behavior.
-                    break;
+/// Split derivative notation at the start of `input` into its parts
+#[allow(
+    clippy::string_slice,
+    reason = "Slicing at positions of ASCII characters and matched prefixes"
+)]
+fn split_derivative_notation(input: &str) -> Option<DerivativeParts<'_>> {
+    /// Length of the identifier at the start of `s`
+    fn identifier_len(s: &str) -> usize {
+        s.find(|c: char| !is_identifier_continue(c))
+            .unwrap_or(s.len())
+    }
+    /// An optional `^digits` at the start of `s`, and the rest
+    fn order(s: &str) -> Option<(Option<&str>, &str)> {
+        let Some(rest) = s.strip_prefix('^') else {
+            return Some((None, s));
+        };
+        let end = rest
+            .find(|c: char| !c.is_ascii_digit())
+            .unwrap_or(rest.len());
+        (end > 0).then(|| (Some(&rest[..end]), &rest[end..]))
+    }
+
+    let (order_left, rest) = order(input.strip_prefix('\u{2202}')?)?;
+    let rest = rest.strip_prefix('_')?;
+    let (func, rest) = rest.split_at(identifier_len(rest));
+
+    let (args, rest) = if rest.starts_with('(') {
+        let mut depth = 0_usize;
+        let close = rest
+            .char_indices()
+            .find(|&(_, c)| {
+                match c {
+                    '(' => depth += 1,
+                    ')' => depth -= 1,
+                    _ => {}
                 }
-            }
-            _ => {}
-        }
-    }
-
-    let seq = &input[..len];
-
-    // Basic validation: derivative notation should contain more than just '∂'
-    if seq.len() <= '\u{2202}'.len_utf8() {
-        return Err(DiffError::invalid_token(format!(
-            "Incomplete derivative notation: {seq}"
-        )));
-    }
-
-    Ok(seq)
+                depth == 0
+            })?
+            .0;
+        (Some(&rest[1..close]), &rest[close + 1..])
+    } else {
+        (None, rest)
+    };
+    if func.is_empty() && args.is_none() {
+        return None;
+    }
+
+    let rest = rest.strip_prefix("/\u{2202}_")?;
+    let (var, rest) = rest.split_at(identifier_len(rest));
+    if var.is_empty() {
+        return None;
+    }
+    let (order_right, rest) = order(rest)?;
+    Some(DerivativeParts {
+        order: order_left,
+        func,
+        args,
+        var,
+        var_order: order_right,
+        len: input.len() - rest.len(),
+    })
 }
 
 /// Pass 1: Scan characters and create raw tokens
@@ -654,50 +665,28 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
     custom_functions: &HashSet<String, S>,
 ) -> Result<Token<'src>, DiffError> {
     // Format: ∂^order_func(args)/∂_var^order
-    if !s.starts_with("\u{2202}") || !s.contains("/\u{2202}_") {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': must start with '\u{2202}' and contain '/\u{2202}_'"
-        )));
-    }
-
-    let parts: Vec<&str> = s.split("/\u{2202}_").collect();
-    if parts.len() != 2 {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{}': expected exactly one '/\u{2202}_' separator, found {}",
-            s,
-            parts.len() - 1
-        )));
-    }
-
-    let left = parts[0]; // ∂^order_func(args) or ∂_func(args)
-    let right = parts[1]; // var^order or var
-
-    // Parse left side
-    let left_parts: Vec<&str> = left.split('_').collect();
-    if left_parts.len() < 2 {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': left side must contain underscore separator"
-        )));
-    }
-
-    // Parse order from left (defaults to 1 if not specified)
-    // e.g., "∂^n" -> n, "∂" -> 1
-    // Note: '∂' is 3 bytes in UTF-8, '^' is 1 byte = 4 bytes total to skip
-    let order_str = if left_parts[0].starts_with("\u{2202}^") {
-        left_parts[0].get(4..).expect("Checked prefix boundaries")
-    } else if left_parts[0] == "\u{2202}" {
-        "1"
-    } else {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': expected '\u{2202}' or '\u{2202}^order'"
-        )));
-    };
-
+    let parts = split_derivative_notation(s)
+        .filter(|parts| parts.len == s.len())
+        .ok_or_else(|| {
+            DiffError::invalid_token(format!(
+                "Invalid derivative notation '{s}': expected '\u{2202}^n_f(args)/\u{2202}_x^n'"
+            ))
+        })?;
+
+    // The order defaults to 1 and must be the same on both sides
+    let order_str = parts.order.unwrap_or("1");
     let order = order_str.parse::<u32>().map_err(|_e| {
         DiffError::invalid_token(format!(
             "Invalid derivative notation '{s}': order '{order_str}' is not a valid number"
         ))
     })?;
+    if parts.var_order.unwrap_or("1").parse::<u32>() != Ok(order)
+        && !(parts.order.is_some() && parts.var_order.is_none())
+    {
+        return Err(DiffError::invalid_token(format!(
+            "Invalid derivative notation '{s}': the orders on both sides differ"
+        )));
+    }
 
     // Safety check: prevent unreasonably high derivative orders
     if order > 100 {
@@ -706,51 +695,26 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
         )));
     }
 
-    // Parse function name and args
-    // left_parts[1] is "func(args)" or "func"
-    let func_str = left_parts[1];
-    let (func_name, args_tokens) = if let Some(open_paren) = func_str.find('(') {
-        if func_str.ends_with(')') {
-            let name = func_str.get(..open_paren).expect("Checked paren position");
-            // .to_owned(); // Changed to borrow
-            let args_body = func_str
-                .get(open_paren + 1..func_str.len() - 1)
-                .expect("Checked paren boundaries");
-
-            // Safety: prevent infinite recursion on malformed nested derivatives
-            // Check if we're about to recursively parse another derivative
-            if args_body.contains("\u{2202}") && args_body.contains("/\u{2202}_") {
-                // This is likely a nested derivative - limit recursion depth
-                // by ensuring the args don't contain another full derivative notation
-                let nested_depth = args_body.matches("/\u{2202}_").count();
-                if nested_depth > 3 {
-                    return Err(DiffError::invalid_token(format!(
-                        "Invalid derivative notation '{s}': nested derivative depth exceeds limit"
-                    )));
-                }
+    let args_tokens = match parts.args {
+        Some(args_body) => {
+            // Safety: prevent unbounded recursion on nested derivatives
+            if args_body.matches("/\u{2202}_").count() > 64 {
+                return Err(DiffError::invalid_token(format!(
+                    "Invalid derivative notation '{s}': nested derivative depth exceeds limit"
+                )));
             }
-
             // Recursively lex the arguments
             let tokens = lex(args_body, fixed_vars, custom_functions)?;
-            (name, tokens)
-        } else {
-            return Err(DiffError::invalid_token(format!(
-                "Invalid derivative notation '{s}': unmatched parentheses in function arguments"
-            )));
+            crate::parser::implicit_mul::insert_implicit_multiplication(tokens, custom_functions)
         }
-    } else {
-        (func_str, Vec::new())
+        None => Vec::new(),
     };
 
-    // Parse right side: var^order or var
-    let right_parts: Vec<&str> = right.split('^').collect();
-    let var = right_parts[0]; //.to_owned();
-
     Ok(Token::Derivative {
         order,
-        func: Cow::Borrowed(func_name), //Borrow
+        func: Cow::Borrowed(parts.func),
         args: args_tokens,
-        var: Cow::Borrowed(var), // Borrow
+        var: Cow::Borrowed(parts.var),
     })
 }
 
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index ff2acc7..d4f6f9a 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -24,7 +24,17 @@ pub fn parse_expression(
         context,
     };
 
-    parser.parse_expr(0)
+    let expr = parser.parse_expr(0)?;
+
+    // Everything must have been consumed: nothing is silently ignored
+    match parser.current() {
+        None => Ok(expr),
+        Some(token) => Err(DiffError::UnexpectedToken {
+            expected: "operator or end of input".to_owned(),
+            got: token.to_user_string(),
+            span: None,
+        }),
+    }
 }
 
 /// Pratt parser for expressions
@@ -319,7 +329,17 @@ impl<'src> Parser<'_, 'src> {
                         exprs
                     };
 
-                let inner_expr = Expr::func_multi(func, arg_exprs);
+                let inner_expr = if func.is_empty() {
+                    // ∂_(expr)/∂_x: derivative of a parenthesized expression
+                    match <[Expr; 1]>::try_from(arg_exprs) {
+                        Ok([inner]) => inner,
+                        Err(_) => {
+                            return Err(DiffError::invalid_token(token.to_user_string()));
+                        }
+                    }
+                } else {
+                    Expr::func_multi(func, arg_exprs)
+                };
 
                 Ok(Expr::derivative(inner_expr, var, *order))
             }
-- 
2.43.0


From bc25c2c0ea97d876a65c8bf330715fcd05811509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 04/40] fix: report too many arguments of built-in functions

---
 src/parser/pratt.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index d4f6f9a..0bef3f5 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -239,6 +239,20 @@ impl<'src> Parser<'_, 'src> {
                     // Use the canonical name from Operator::to_name()
                     let func_name = op.to_name();
 
+                    // Validate the maximum number of arguments
+                    let definition = crate::functions::registry::Registry::get_by_symbol(
+                        &crate::core::symbol::symb_interned(func_name),
+                    );
+                    if let Some(definition) = definition
+                        && args.len() > *definition.arity.end()
+                    {
+                        return Err(DiffError::InvalidFunctionCall {
+                            name: func_name.to_owned(),
+                            expected: *definition.arity.end(),
+                            got: args.len(),
+                        });
+                    }
+
                     Ok(Expr::func_multi(func_name, args))
                 } else {
                     Err(DiffError::UnexpectedToken {
-- 
2.43.0


From 4826a1409e913116a302a7b3dda343b11185f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 05/40] fix: substitution, mapping, counting and copying keep
 polynomial and quotient structure

---
 src/core/expr/analysis.rs | 67 ++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 2c20232..56ccd22 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -96,8 +96,14 @@ impl Expr {
             ExprKind::Product(factors) => 1 + factors.iter().map(|f| f.node_count()).sum::<usize>(),
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.node_count() + r.node_count(),
             ExprKind::Derivative { inner, .. } => 1 + inner.node_count(),
-            // Poly is counted as 1 node + its expanded form
-            ExprKind::Poly(poly) => 1 + poly.terms().len(),
+            // Poly is counted as the sum it stands for
+            ExprKind::Poly(poly) => {
+                1 + poly
+                    .to_expr_terms()
+                    .iter()
+                    .map(Self::node_count)
+                    .sum::<usize>()
+            }
         }
     }
 
@@ -115,7 +121,15 @@ impl Expr {
             }
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.max_depth().max(r.max_depth()),
             ExprKind::Derivative { inner, .. } => 1 + inner.max_depth(),
-            ExprKind::Poly(_) => 2, // Poly is shallow: one level for poly, one for terms
+            // Poly is as deep as the sum it stands for
+            ExprKind::Poly(poly) => {
+                1 + poly
+                    .to_expr_terms()
+                    .iter()
+                    .map(Self::max_depth)
+                    .max()
+                    .unwrap_or(0)
+            }
         }
     }
 
@@ -264,10 +278,14 @@ impl Expr {
                     .collect();
                 Self::new(ExprKind::Product(cloned))
             }
-            ExprKind::Div(a, b) => Self::div_expr(a.as_ref().deep_clone(), b.as_ref().deep_clone()),
-            ExprKind::Pow(a, b) => {
-                Self::pow_static(a.as_ref().deep_clone(), b.as_ref().deep_clone())
-            }
+            ExprKind::Div(a, b) => Self::new(ExprKind::Div(
+                Arc::new(a.as_ref().deep_clone()),
+                Arc::new(b.as_ref().deep_clone()),
+            )),
+            ExprKind::Pow(a, b) => Self::new(ExprKind::Pow(
+                Arc::new(a.as_ref().deep_clone()),
+                Arc::new(b.as_ref().deep_clone()),
+            )),
             ExprKind::Derivative { inner, var, order } => {
                 Self::derivative(inner.as_ref().deep_clone(), var.clone(), *order)
             }
@@ -358,7 +376,12 @@ impl Expr {
     {
         let acc = f(init, self);
         match &self.kind {
-            ExprKind::Number(_) | ExprKind::Symbol(_) | ExprKind::Poly(_) => acc, // Poly is opaque for folding
+            ExprKind::Number(_) | ExprKind::Symbol(_) => acc,
+            // Poly is folded as the sum it stands for
+            ExprKind::Poly(poly) => poly
+                .to_expr_terms()
+                .iter()
+                .fold(acc, |a, term| term.fold(a, f)),
             ExprKind::FunctionCall { args, .. } => args.iter().fold(acc, |a, arg| arg.fold(a, f)),
             ExprKind::Sum(terms) => terms.iter().fold(acc, |a, t| t.fold(a, f)),
             ExprKind::Product(factors) => factors.iter().fold(acc, |a, f_| f_.fold(a, f)),
@@ -394,14 +417,34 @@ impl Expr {
                     .collect();
                 Self::new(ExprKind::Product(mapped))
             }
-            ExprKind::Div(a, b) => Self::div_expr(a.map(f), b.map(f)),
-            ExprKind::Pow(a, b) => Self::pow_static(a.map(f), b.map(f)),
+            ExprKind::Div(a, b) => {
+                let (mapped_a, mapped_b) = (a.map(f), b.map(f));
+                if mapped_a == **a && mapped_b == **b {
+                    self.clone()
+                } else {
+                    Self::div_expr(mapped_a, mapped_b)
+                }
+            }
+            ExprKind::Pow(a, b) => {
+                let (mapped_a, mapped_b) = (a.map(f), b.map(f));
+                if mapped_a == **a && mapped_b == **b {
+                    self.clone()
+                } else {
+                    Self::pow_static(mapped_a, mapped_b)
+                }
+            }
             ExprKind::Derivative { inner, var, order } => {
                 Self::derivative(inner.map(f), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
-                // Poly is opaque for mapping - just clone
-                Self::new(ExprKind::Poly(poly.clone()))
+                // Poly is mapped as the sum it stands for
+                let terms = poly.to_expr_terms();
+                let mapped: Vec<Self> = terms.iter().map(|term| term.map(f)).collect();
+                if mapped == terms {
+                    self.clone()
+                } else {
+                    Self::sum(mapped)
+                }
             }
         };
         f(&transformed)
-- 
2.43.0


From e56cf8d2ea2ef1142c9229b6b5f0acbabed662b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:13 +0000
Subject: [PATCH 06/40] fix: operand order of products containing polynomials
 is canonical

---
 src/core/expr/constructors.rs |  7 ++++
 src/core/expr/ordering.rs     | 61 ++++++++++++++++++++++++++---------
 2 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 02ce16f..294c073 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -880,6 +880,7 @@ fn finalize_product(mut flat: Vec<Arc<Expr>>) -> Expr {
 
     let mut result: Vec<Arc<Expr>> = Vec::with_capacity(flat.len());
     let mut it = flat.into_iter().peekable();
+    let mut merged = false;
 
     while let Some(factor) = it.next() {
         let bh = get_product_base_hash(&factor);
@@ -917,6 +918,7 @@ fn finalize_product(mut flat: Vec<Arc<Expr>>) -> Expr {
                 total_exp,
             )));
             result.extend(unmerged);
+            merged = true;
             continue;
         }
         result.push(factor);
@@ -927,5 +929,10 @@ fn finalize_product(mut flat: Vec<Arc<Expr>>) -> Expr {
             .unwrap_or_else(|arc| (*arc).clone());
     }
 
+    // A merged power may belong elsewhere in canonical order (e.g., x * x * (x + x^2))
+    if merged {
+        result.sort_by(|a, b| expr_cmp(a, b));
+    }
+
     Expr::new(ExprKind::Product(result))
 }
diff --git a/src/core/expr/ordering.rs b/src/core/expr/ordering.rs
index 28dca91..62d8662 100644
--- a/src/core/expr/ordering.rs
+++ b/src/core/expr/ordering.rs
@@ -44,7 +44,18 @@ pub fn expr_cmp(a: &Expr, b: &Expr) -> CmpOrdering {
     let coeff_a = get_coeff(a);
     let coeff_b = get_coeff(b);
 
-    coeff_a.partial_cmp(&coeff_b).unwrap_or(CmpOrdering::Equal)
+    let coeff_cmp = coeff_a.partial_cmp(&coeff_b).unwrap_or(CmpOrdering::Equal);
+    if coeff_cmp != CmpOrdering::Equal {
+        return coeff_cmp;
+    }
+
+    // A polynomial shares its base with plain powers (e.g., x vs x^2 + x); keep the order total
+    match (get_poly(a), get_poly(b)) {
+        (None, None) => CmpOrdering::Equal,
+        (None, Some(_)) => CmpOrdering::Less,
+        (Some(_), None) => CmpOrdering::Greater,
+        (Some(p), Some(q)) => cmp_poly_terms(p, q),
+    }
 }
 
 // Helper to get the sorting "base" of an expression.
@@ -97,6 +108,39 @@ fn get_coeff(e: &Expr) -> f64 {
     }
 }
 
+// Helper to get the polynomial an expression (or its single non-numeric factor) consists of.
+#[inline]
+fn get_poly(e: &Expr) -> Option<&crate::core::poly::Polynomial> {
+    match &e.kind {
+        ExprKind::Product(factors)
+            if factors.len() == 2 && matches!(&factors[0].kind, ExprKind::Number(_)) =>
+        {
+            get_poly(&factors[1])
+        }
+        ExprKind::Poly(p) => Some(p),
+        _ => None,
+    }
+}
+
+/// Compare the terms of two polynomials
+fn cmp_poly_terms(
+    p1: &crate::core::poly::Polynomial,
+    p2: &crate::core::poly::Polynomial,
+) -> CmpOrdering {
+    p1.terms().len().cmp(&p2.terms().len()).then_with(|| {
+        for (t1, t2) in p1.terms().iter().zip(p2.terms().iter()) {
+            let c = t1
+                .0
+                .cmp(&t2.0)
+                .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
+            if c != CmpOrdering::Equal {
+                return c;
+            }
+        }
+        CmpOrdering::Equal
+    })
+}
+
 /// Fallback: Strict type comparisons for atomic terms
 /// Order: Number < Symbol < Sum < `FunctionCall` < Pow < Div
 /// Note: Product is not included because products are flattened during construction
@@ -181,20 +225,7 @@ pub fn expr_cmp_type_strict(a: &Expr, b: &Expr) -> CmpOrdering {
             .then_with(|| expr_cmp(i1, i2)),
 
         (ExprKind::Poly(p1), ExprKind::Poly(p2)) => {
-            expr_cmp(p1.base(), p2.base()).then_with(|| {
-                p1.terms().len().cmp(&p2.terms().len()).then_with(|| {
-                    for (t1, t2) in p1.terms().iter().zip(p2.terms().iter()) {
-                        let c = t1
-                            .0
-                            .cmp(&t2.0)
-                            .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
-                        if c != CmpOrdering::Equal {
-                            return c;
-                        }
-                    }
-                    CmpOrdering::Equal
-                })
-            })
+            expr_cmp(p1.base(), p2.base()).then_with(|| cmp_poly_terms(p1, p2))
         }
         (ExprKind::Poly(_), _) => CmpOrdering::Less,
         (_, ExprKind::Poly(_)) => CmpOrdering::Greater,
-- 
2.43.0


From c7b7de8ac9572aa7124c18f9fe36d6c34ef0bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 07/40] fix: derivative of cbrt is defined for negative
 arguments

---
 src/functions/definitions.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index f88eb28..ecfd1c1 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -704,7 +704,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             arity: 1..=1,
             eval: |args| Some(args[0].cbrt()),
             derivative: |args, arg_primes| {
-                // d/dx cbrt(u) = u' / (3 * u^(2/3))
+                // d/dx cbrt(u) = u' / (3 * cbrt(u)^2), defined for negative u as well
                 let u = Arc::clone(&args[0]);
                 let u_prime = arg_primes[0].clone();
                 Expr::mul_expr(
@@ -712,9 +712,12 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                         Expr::number(1.0),
                         Expr::mul_expr(
                             Expr::number(3.0),
-                            Expr::pow_from_arcs(
-                                u,
-                                Arc::new(Expr::div_expr(Expr::number(2.0), Expr::number(3.0))),
+                            Expr::pow_static(
+                                Expr::func_multi_from_arcs_symbol(
+                                    ks::get_symbol(ks::KS.cbrt),
+                                    vec![u],
+                                ),
+                                Expr::number(2.0),
                             ),
                         ),
                     ),
-- 
2.43.0


From 287a69ee43382a356c6e0ee3939d34096b617f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 08/40] fix: domain-safe simplification keeps values at
 negative arguments of roots and powers

---
 .../rules/algebraic/expansion.rs              | 16 +++++-
 src/simplification/rules/algebraic/powers.rs  | 52 +++++++++++++++++--
 src/simplification/rules/root/mod.rs          | 35 +++++++++++--
 3 files changed, 95 insertions(+), 8 deletions(-)

diff --git a/src/simplification/rules/algebraic/expansion.rs b/src/simplification/rules/algebraic/expansion.rs
index afdf456..a8abe6f 100644
--- a/src/simplification/rules/algebraic/expansion.rs
+++ b/src/simplification/rules/algebraic/expansion.rs
@@ -1,5 +1,7 @@
 use crate::core::known_symbols::KS;
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::is_known_non_negative;
+use crate::simplification::rules::algebraic::powers::is_integer_exponent;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 
@@ -9,7 +11,7 @@ rule!(
     92,
     Algebraic,
     &[ExprKind::Div],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Div(num, den) = &expr.kind {
             // Helper to check if a factor is present in an expression
             let contains_factor = |e: &Expr, factor: &Expr| -> bool {
@@ -24,6 +26,18 @@ rule!(
                 if let AstKind::Pow(base, exp) = &target.kind
                     && let AstKind::Product(base_factors) = &base.kind
                 {
+                    // sqrt(a*b) may be defined where sqrt(a) and sqrt(b) are not
+                    if context.domain_safe
+                        && !is_integer_exponent(exp)
+                        && base_factors
+                            .iter()
+                            .filter(|f| !is_known_non_negative(f))
+                            .count()
+                            > 1
+                    {
+                        return None;
+                    }
+
                     // Check if any base factor is present in 'other'
                     let mut useful = false;
                     for factor in base_factors {
diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index e0aff8c..0c04f1e 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -4,6 +4,23 @@ use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
 
+/// Value of a numeric exponent written as a number or a quotient of numbers
+fn numeric_exponent(exp: &Expr) -> Option<f64> {
+    match &exp.kind {
+        AstKind::Number(n) => Some(*n),
+        AstKind::Div(num, den) => match (&num.kind, &den.kind) {
+            (AstKind::Number(a), AstKind::Number(b)) if *b != 0.0 => Some(a / b),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
+/// Whether an exponent is known to be an integer
+pub fn is_integer_exponent(exp: &Expr) -> bool {
+    numeric_exponent(exp).is_some_and(|n| n.fract() == 0.0)
+}
+
 rule!(
     PowerZeroRule,
     "power_zero",
@@ -45,7 +62,7 @@ rule!(
     75,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(u, v) = &expr.kind
             && let AstKind::Pow(base, exp_inner) = &u.kind
         {
@@ -96,6 +113,24 @@ rule!(
             // Create new exponent: exp_inner * v using Product
             let new_exp = Expr::product_from_arcs(vec![Arc::clone(exp_inner), Arc::clone(v)]);
 
+            // Over the reals (x^2)^b is |x|^(2b), so merging needs care outside of x >= 0
+            if context.domain_safe
+                && !is_integer_exponent(v)
+                && !crate::simplification::helpers::is_known_non_negative(base)
+            {
+                return match numeric_exponent(exp_inner) {
+                    Some(n) if n.fract() == 0.0 && n % 2.0 == 0.0 => {
+                        let abs_base = Expr::func_multi_from_arcs_symbol(
+                            ks::get_symbol(ks::KS.abs),
+                            vec![Arc::clone(base)],
+                        );
+                        Some(Expr::pow_from_arcs(Arc::new(abs_base), Arc::new(new_exp)))
+                    }
+                    Some(_) => Some(Expr::pow_from_arcs(Arc::clone(base), Arc::new(new_exp))),
+                    None => None,
+                };
+            }
+
             return Some(Expr::pow_from_arcs(Arc::clone(base), Arc::new(new_exp)));
         }
         None
@@ -411,7 +446,7 @@ rule!(
     90,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind {
             // Handle negative number exponent: x^-n -> 1/x^n
             if let AstKind::Number(n) = exp.kind
@@ -436,6 +471,8 @@ rule!(
             if let AstKind::Product(factors) = &exp.kind
                 && !factors.is_empty()
                 && let AstKind::Number(n) = &factors[0].kind
+                // 0^(-a) is defined for a < 0, 1/0^a is not
+                && !(context.domain_safe && base.is_zero_num())
             {
                 // Exact check for -1.0 coefficient
                 #[allow(clippy::float_cmp, reason = "Comparing against exact constant -1.0")]
@@ -463,10 +500,19 @@ rule!(
     88,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind
             && let AstKind::Div(num, den) = &base.kind
         {
+            // sqrt(a/b) may be defined where sqrt(a) and sqrt(b) are not
+            if context.domain_safe
+                && !is_integer_exponent(exp)
+                && !crate::simplification::helpers::is_known_non_negative(num)
+                && !crate::simplification::helpers::is_known_non_negative(den)
+            {
+                return None;
+            }
+
             let is_root_exponent = match &exp.kind {
                 AstKind::Div(n, d) => {
                     // Exact check for 1/n root exponent
diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index 44c69f6..eb7d13c 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -1,6 +1,7 @@
 use crate::core::expr::{Expr, ExprKind as AstKind};
 use crate::core::known_symbols::{KS, get_symbol};
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::is_known_non_negative;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 
@@ -10,7 +11,7 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.sqrt
             && args.len() == 1
@@ -27,6 +28,21 @@ rule!(
                 }
             }
 
+            // Over the reals sqrt(x^6) is |x|^3, not x^3
+            let base = if context.domain_safe && !is_known_non_negative(base) {
+                match &exp.kind {
+                    AstKind::Number(n) if n.fract() != 0.0 || n % 2.0 != 0.0 => Arc::clone(base),
+                    AstKind::Number(n) if n % 4.0 == 0.0 => Arc::clone(base),
+                    AstKind::Number(_) => Arc::new(Expr::func_symbol(
+                        get_symbol(KS.abs),
+                        base.as_ref().clone(),
+                    )),
+                    _ => return None,
+                }
+            } else {
+                Arc::clone(base)
+            };
+
             // Create new exponent: exp / 2
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(2.0));
 
@@ -72,12 +88,20 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.cbrt
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
+            // cbrt is defined for negative arguments, a fractional power is not
+            if context.domain_safe
+                && !is_known_non_negative(base)
+                && !matches!(&exp.kind, AstKind::Number(n) if n % 3.0 == 0.0)
+            {
+                return None;
+            }
+
             // Create new exponent: exp / 3
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(3.0));
 
@@ -190,7 +214,7 @@ rule!(
     50,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && args.len() == 1
         {
@@ -199,7 +223,10 @@ rule!(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(2.0)),
                 ));
-            } else if name.id() == KS.cbrt {
+            } else if name.id() == KS.cbrt
+                // cbrt is defined for negative arguments, a fractional power is not
+                && (!context.domain_safe || is_known_non_negative(&args[0]))
+            {
                 return Some(Expr::pow_static(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(3.0)),
-- 
2.43.0


From fbb9c9dd3a1a6a361ea0a0dd9771407bfb1e46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 09/40] fix: erf of large arguments does not diverge

---
 src/math/special.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index cb70c2d..587880e 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -15,12 +15,26 @@ pub fn eval_erf<T: MathScalar>(x: T) -> T {
     let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
     let coeff = two / sqrt_pi;
 
+    // The alternating series only converges usefully for small arguments: its terms grow
+    // like x^(2n+1)/n! before they shrink. Beyond that use the continued fraction of erfc.
+    let series_limit = T::from_f64(2.5).expect("Failed to convert mathematical constant 2.5");
+    if x >= series_limit {
+        let half = T::from_f64(0.5).expect("Failed to convert mathematical constant 0.5");
+        // erfc(x) = e^(-x²)/√π · 1/(x + (1/2)/(x + (2/2)/(x + (3/2)/(x + ...))))
+        let mut fraction = x;
+        for k in (1..=60).rev() {
+            let k_t = T::from_i32(k).expect("Failed to convert loop counter to float");
+            fraction = x + half * k_t / fraction;
+        }
+        return sign * (T::one() - (-x * x).exp() / (sqrt_pi * fraction));
+    }
+
     let mut sum = T::zero();
     let mut compensation = T::zero(); // Kahan summation
     let mut factorial = T::one();
     let mut power = x;
 
-    for n in 0..30 {
+    for n in 0..60 {
         let two_n_plus_one =
             T::from_usize(2 * n + 1).expect("Failed to convert small integer to float");
 
-- 
2.43.0


From 702f8857a706f4d931fc1721060e67781a2db7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 10/40] fix: complete elliptic integral of the second kind
 weighs the AGM corrections correctly

---
 src/math/elliptic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/elliptic.rs b/src/math/elliptic.rs
index 3444930..a4ee811 100644
--- a/src/math/elliptic.rs
+++ b/src/math/elliptic.rs
@@ -49,12 +49,17 @@ pub fn eval_elliptic_e<T: MathScalar>(k: T) -> Option<T> {
     if k.abs() > one {
         return Some(T::nan());
     }
+    // The AGM does not converge to a positive limit at the endpoint, where E(±1) = 1
+    if k.abs() == one {
+        return Some(one);
+    }
     let mut a = one;
     let mut b = (one - k * k).sqrt();
 
     let k2 = k * k;
+    // E = K · (1 - Σ 2^(n-1) c_n²) with c_0 = k
     let mut sum = one - k2 / T::from(2.0).expect("Failed to convert mathematical constant");
-    let mut pow2 = T::from(0.5).expect("Failed to convert mathematical constant");
+    let mut pow2 = one;
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
     let tolerance = T::from(1e-15).expect("Failed to convert mathematical constant");
 
-- 
2.43.0


From 2421d783e38c91e32d947cb798cf3253aeb0b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:46 +0000
Subject: [PATCH 11/40] fix: tetragamma expansion, and polygamma functions
 terminate on very negative arguments

---
 src/math/special.rs | 54 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 587880e..b7ee041 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -167,6 +167,9 @@ pub fn eval_trigamma<T: MathScalar>(x: T) -> Option<T> {
     if x <= T::zero() && x.fract() == T::zero() {
         return None;
     }
+    if x < polygamma_recurrence_limit() {
+        return polygamma_reflection(1, x);
+    }
     let mut xv = x;
     let mut r = T::zero();
     let six = T::from_f64(6.0).expect("Failed to convert constant 6.0");
@@ -196,18 +199,46 @@ pub fn eval_tetragamma<T: MathScalar>(x: T) -> Option<T> {
     if x <= T::zero() && x.fract() == T::zero() {
         return None;
     }
-    let mut xv = x;
-    let mut r = T::zero();
-    let six = T::from(6.0).expect("Failed to convert mathematical constant");
-    let one = T::one();
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
+    eval_polygamma(2, x)
+}
 
-    while xv < six {
-        r -= two / (xv * xv * xv);
-        xv += one;
+/// Arguments below this are reflected instead of shifted upwards one by one, which would
+/// take a number of steps proportional to the argument.
+fn polygamma_recurrence_limit<T: MathScalar>() -> T {
+    T::from_f64(-32.0).expect("Failed to convert mathematical constant")
+}
+
+/// Polygamma function of a negative argument via the reflection formula
+///
+/// ψⁿ(x) = (-1)ⁿ ψⁿ(1-x) - π dⁿ/dxⁿ cot(πx)
+///
+/// Reference: DLMF §5.15.6 <https://dlmf.nist.gov/5.15#E6>
+fn polygamma_reflection<T: MathScalar>(n: i32, x: T) -> Option<T> {
+    let pi = T::PI();
+    let one = T::one();
+    // cot has period one in x/π: reduce first to keep precision for large arguments
+    let phase = pi * (x - x.floor());
+    let cot = phase.cos() / phase.sin();
+
+    // dⁿ/dxⁿ cot(πx) = πⁿ Pₙ(cot(πx)) with P₀ = c and Pₙ₊₁ = -(1 + c²) Pₙ'
+    let mut poly = vec![T::zero(), one];
+    for _ in 0..n {
+        let mut next = vec![T::zero(); poly.len() + 1];
+        for (k, &coeff) in poly.iter().enumerate().skip(1) {
+            let scaled = coeff * T::from_usize(k).expect("Failed to convert polynomial degree");
+            next[k - 1] -= scaled;
+            next[k + 1] -= scaled;
+        }
+        poly = next;
     }
-    let x2 = xv * xv;
-    Some(r - one / x2 + one / (x2 * xv) + one / (two * x2 * x2) + one / (six * x2 * x2 * xv))
+    let derivative = poly
+        .iter()
+        .rev()
+        .fold(T::zero(), |acc, &coeff| acc * cot + coeff);
+
+    let reflected = eval_polygamma(n, one - x)?;
+    let signed = if n % 2 == 0 { reflected } else { -reflected };
+    Some(signed - pi.powi(n + 1) * derivative)
 }
 
 /// Riemann zeta function ζ(s) = Σ_{n=1}^∞ 1/n^s
@@ -683,6 +714,9 @@ pub fn eval_polygamma<T: MathScalar>(n: i32, x: T) -> Option<T> {
             if x <= T::zero() && x.fract() == T::zero() {
                 return None;
             }
+            if x < polygamma_recurrence_limit() {
+                return polygamma_reflection(n, x);
+            }
             let mut xv = x;
             let mut r = T::zero();
             // ψ^(n)(x) = (-1)^(n+1) * n! * Σ_{k=0}^∞ 1/(x+k)^(n+1)
-- 
2.43.0


From 1ac52a6377d734bdb7699f9420765a9d9b596774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 12/40] fix: zeta between 1 and 1.5 subtracts the boundary term

---
 src/math/special.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index b7ee041..9209446 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -299,8 +299,8 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
         // Integral approximation: ∫[N,∞] 1/t^s dt = N^(1-s)/(s-1)
         let em_integral = n_pow_1_minus_x / (x - one);
 
-        // Boundary correction: 1/(2N^s)
-        let em_boundary = T::from(0.5).expect("Failed to convert mathematical constant") / n_pow_x;
+        // Boundary correction: -1/(2N^s), as the sum above includes the N-th term in full
+        let em_boundary = -T::from(0.5).expect("Failed to convert mathematical constant") / n_pow_x;
 
         // Bernoulli corrections (improving convergence)
         // B_2 = 1/6: correction term s/(12 N^(s+1))
-- 
2.43.0


From 0bd90502f60b8bd3f68b90cc324889f017de25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 13/40] fix: derivatives of zeta are computed from Taylor
 expansions instead of truncated sums and finite differences

---
 src/math/special.rs | 300 +++++++++++++++++++++-----------------------
 1 file changed, 142 insertions(+), 158 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 9209446..d56bd0b 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -399,11 +399,10 @@ fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
 
 /// Derivative of Riemann Zeta function
 ///
-/// Computes the n-th derivative of ζ(s) using the analytical formula:
-/// ζ^(n)(s) = (-1)^n * Σ_{k=1}^∞ [ln(k)]^n / k^s
-///
-/// This implementation uses the same convergence techniques as `eval_zeta`
-/// to ensure consistency and accuracy.
+/// Computes the n-th derivative of ζ(s) by carrying truncated Taylor expansions around `x`
+/// through the same formulas `eval_zeta` rests on:
+/// - For s ≥ -0.5: Euler-Maclaurin summation with Bernoulli corrections
+/// - For s < -0.5: the functional equation ζ(s) = 2^s π^(s-1) sin(πs/2) Γ(1-s) ζ(1-s)
 ///
 /// Reference: DLMF §25.2 <https://dlmf.nist.gov/25.2>
 ///
@@ -430,180 +429,165 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
         return None;
     }
 
-    // For Re(s) > 1, use direct series with Kahan summation
-    // The analytical series is exact for any n, no need for special cases
-    if x > one {
-        let mut sum = T::zero();
-        let mut compensation = T::zero(); // Kahan summation
-        let max_terms = 200;
-
-        for k in 1..=max_terms {
-            let k_t = T::from(k).expect("Failed to convert mathematical constant");
-            let ln_k = k_t.ln();
-
-            // Calculate [ln(k)]^n using faster exponentiation for large n
-            let ln_k_power = if n <= 5 {
-                // Direct multiplication for small n
-                let mut result = one;
-                for _ in 0..n {
-                    result *= ln_k;
-                }
-                result
-            } else {
-                // Use powf for large n (faster)
-                ln_k.powf(T::from(n).expect("Failed to convert mathematical constant"))
-            };
-
-            // Calculate term: [ln(k)]^n / k^x
-            let term = ln_k_power / k_t.powf(x);
-
-            // Kahan summation algorithm (compensated summation)
-            let y = term - compensation;
-            let t = sum + y;
-            compensation = (t - sum) - y; // Captures lost low-order bits
-            sum = t;
-
-            // Enhanced convergence check
-            if k > 50
-                && term.abs()
-                    < epsilon * T::from_f64(0.01).expect("Failed to convert constant 0.01")
-            {
-                break;
-            }
-        }
+    // n! leaves the range of double precision
+    if n > 150 {
+        return None;
+    }
 
-        // Apply sign: (-1)^n
-        let sign = if n % 2 == 0 { one } else { -one };
-        Some(sign * sum)
+    // The functional equation runs into the pole of ζ(1-s) at s = 0
+    let reflect_below = T::from(-0.5).expect("Failed to convert mathematical constant");
+    let len = usize::try_from(n).ok()? + 1;
+    let series = if x < reflect_below {
+        zeta_taylor_reflected(len, x)?
     } else {
-        // For Re(s) < 1, use functional equation derivative
-        // ζ(s) = 2^s π^(s-1) sin(πs/2) Γ(1-s) ζ(1-s)
+        zeta_taylor_euler_maclaurin(len, x)?
+    };
 
-        // Use reflection for all s < 1 (except pole at s=1 already handled)
-        // With improved eval_zeta, the reflection formula components are now stable for 0 < s < 1
-        eval_zeta_deriv_reflection(n, x)
+    // The n-th derivative is n! times the n-th Taylor coefficient
+    let mut result = series[len - 1];
+    for i in 1..=n {
+        result *= T::from_i32(i)?;
     }
+    Some(result)
 }
 
-/// Compute zeta derivative using reflection formula with finite differences
-///
-/// For Re(s) < 1, uses reflection formula: ζ(s) = A(s)·ζ(1-s)
-/// where A(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s)
-///
-/// We compute ζ^(n)(s) numerically using finite differences,
-/// while ζ(1-s) is evaluated exactly via analytical series.
-///
-/// This is simpler and more stable than the full Leibniz expansion.
-fn eval_zeta_deriv_reflection<T: MathScalar>(n: i32, s: T) -> Option<T> {
-    let one = T::one();
-    let two = T::from_f64(2.0).expect("Failed to convert constant 2.0");
-    let four = T::from_f64(4.0).expect("Failed to convert constant 4.0");
-
-    // Finite difference step - small enough for accuracy but not too small
-    let h = T::from_f64(1e-7).expect("Failed to convert epsilon 1e-7");
-
-    if n == 1 {
-        // First derivative: centered difference
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        Some((zeta_plus - zeta_minus) / (two * h))
-    } else if n == 2 {
-        // Second derivative: centered second difference
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_center = eval_zeta_reflection_base(s)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        Some((zeta_plus - two * zeta_center + zeta_minus) / (h * h))
-    } else {
-        // Higher order: use Richardson extrapolation
-        // Compute with step h and h/2, then extrapolate to h→0
-        let d_h = centered_finite_diff(n, s, h)?;
-        let d_h2 = centered_finite_diff(n, s, h / two)?;
+/// Product of two truncated Taylor series of the same length
+fn taylor_product<T: MathScalar>(a: &[T], b: &[T]) -> Vec<T> {
+    (0..a.len())
+        .map(|i| (0..=i).fold(T::zero(), |acc, j| acc + a[j] * b[i - j]))
+        .collect()
+}
 
-        // Richardson: D_exact ≈ (4^n * D_h - D_{h/2}) / (4^n - 1)
-        // For n >= 3, use general extrapolation factor
-        let extrapolation = four.powi(n) - one;
-        Some((four.powi(n) * d_h2 - d_h) / extrapolation)
+/// First `len` Taylor coefficients of `scale · e^(rate·t)` around t = 0
+fn taylor_exponential<T: MathScalar>(len: usize, scale: T, rate: T) -> Option<Vec<T>> {
+    let mut out = Vec::with_capacity(len);
+    let mut coeff = scale;
+    for i in 1..=len {
+        out.push(coeff);
+        coeff *= rate / T::from_usize(i)?;
     }
+    Some(out)
 }
 
-/// Evaluate ζ(s) using reflection formula (for Re(s) < 1)
-///
-/// ζ(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s) · ζ(1-s)
-/// where ζ(1-s) is computed via exact analytical series
-fn eval_zeta_reflection_base<T: MathScalar>(s: T) -> Option<T> {
-    let pi = T::PI();
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let half = T::from(0.5).expect("Failed to convert mathematical constant");
+/// First `len` Taylor coefficients of ζ around `s`, by Euler-Maclaurin summation:
+///
+/// ζ(s) = Σ_{k<N} k^(-s) + N^(1-s)/(s-1) + N^(-s)/2 + Σ_j `B_2j`/(2j)! s(s+1)…(s+2j-2) N^(1-s-2j)
+fn zeta_taylor_euler_maclaurin<T: MathScalar>(len: usize, s: T) -> Option<Vec<T>> {
+    // B_2j / (2j)!
+    const BERNOULLI_OVER_FACTORIAL: [f64; 8] = [
+        1.0 / 12.0,
+        -1.0 / 720.0,
+        1.0 / 30_240.0,
+        -1.0 / 1_209_600.0,
+        1.0 / 47_900_160.0,
+        -691.0 / 1_307_674_368_000.0,
+        1.0 / 74_724_249_600.0,
+        -3617.0 / 10_670_622_842_880_000.0,
+    ];
     let one = T::one();
-    let one_minus_s = one - s;
-
-    // A(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s)
-    let a_term = two.powf(s);
-    let b_term = pi.powf(s - one);
-    let c_term = (pi * s * half).sin();
-    let d_term = eval_gamma(one_minus_s)?;
-
-    // ζ(1-s) via exact analytical series (Re(1-s) > 1 when Re(s) < 1)
-    let zeta_term = eval_zeta(one_minus_s)?;
-
-    Some(a_term * b_term * c_term * d_term * zeta_term)
-}
-
-/// Compute n-th derivative using centered finite difference
-///
-/// Uses an n+1 point stencil for the n-th derivative
-fn centered_finite_diff<T: MathScalar>(n: i32, s: T, h: T) -> Option<T> {
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let four = T::from(4.0).expect("Failed to convert mathematical constant");
+    let cutoff = 20 + 2 * len;
+
+    let mut total = vec![T::zero(); len];
+    for k in 1..cutoff {
+        let k_t = T::from_usize(k)?;
+        let term = taylor_exponential(len, k_t.powf(-s), -k_t.ln())?;
+        for (acc, coeff) in total.iter_mut().zip(term) {
+            *acc += coeff;
+        }
+    }
 
-    if n == 1 {
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        return Some((zeta_plus - zeta_minus) / (two * h));
+    let n_t = T::from_usize(cutoff)?;
+    // N^(-s-t)
+    let power = taylor_exponential(len, n_t.powf(-s), -n_t.ln())?;
+
+    // Everything that multiplies N^(-s-t): N/(s-1+t) + 1/2 + Bernoulli corrections
+    let mut factor = Vec::with_capacity(len);
+    let mut reciprocal = one / (s - one);
+    for _ in 0..len {
+        factor.push(n_t * reciprocal);
+        reciprocal = -reciprocal / (s - one);
+    }
+    factor[0] += T::from_f64(0.5)?;
+
+    // (s+t)(s+1+t)…(s+2j-2+t), one pair of factors per correction
+    let mut rising = vec![T::zero(); len];
+    rising[0] = one;
+    let mut shift = s;
+    let mut scale = one / n_t;
+    for (j, &bernoulli) in BERNOULLI_OVER_FACTORIAL.iter().enumerate() {
+        for _ in 0..if j == 0 { 1 } else { 2 } {
+            for i in (0..len).rev() {
+                let lower = if i == 0 { T::zero() } else { rising[i - 1] };
+                rising[i] = rising[i] * shift + lower;
+            }
+            shift += one;
+        }
+        let weight = T::from_f64(bernoulli)? * scale;
+        for (acc, &coeff) in factor.iter_mut().zip(&rising) {
+            *acc += weight * coeff;
+        }
+        scale /= n_t * n_t;
     }
 
-    if n == 2 {
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_center = eval_zeta_reflection_base(s)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        return Some((zeta_plus - two * zeta_center + zeta_minus) / (h * h));
+    for (acc, coeff) in total.iter_mut().zip(taylor_product(&power, &factor)) {
+        *acc += coeff;
     }
+    Some(total)
+}
 
-    if n == 3 {
-        // Third derivative: 4-point centered stencil
-        let zeta_plus2 = eval_zeta_reflection_base(s + two * h)?;
-        let zeta_plus1 = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus1 = eval_zeta_reflection_base(s - h)?;
-        let zeta_minus2 = eval_zeta_reflection_base(s - two * h)?;
-        // d³f/dx³ ≈ (f(x+2h) - 2f(x+h) + 2f(x-h) - f(x-2h)) / (2h³)
-        return Some(
-            (-zeta_plus2 + two * zeta_plus1 - two * zeta_minus1 + zeta_minus2) / (two * h * h * h),
+/// First `len` Taylor coefficients of ζ around `s` < 0, by the functional equation
+fn zeta_taylor_reflected<T: MathScalar>(len: usize, s: T) -> Option<Vec<T>> {
+    let pi = T::PI();
+    let one = T::one();
+    let two = one + one;
+    let half_pi = pi / two;
+
+    // 2^s π^(s-1)
+    let power = taylor_exponential(len, two.powf(s) * pi.powf(s - one), (two * pi).ln())?;
+
+    // sin(π(s+t)/2)
+    let (sin, cos) = (half_pi * s).sin_cos();
+    let mut sine = Vec::with_capacity(len);
+    let mut scale = one;
+    for i in 0..len {
+        sine.push(
+            scale
+                * match i % 4 {
+                    0 => sin,
+                    1 => cos,
+                    2 => -sin,
+                    _ => -cos,
+                },
         );
+        scale *= half_pi / T::from_usize(i + 1)?;
+    }
+
+    // Γ(1-s-t) = Γ(1-s) exp(L(t)), where i! times the i-th coefficient of L is (-1)^i ψ^(i-1)(1-s)
+    let mut log_gamma = vec![T::zero(); len];
+    let mut factorial = one;
+    for (i, coeff) in log_gamma.iter_mut().enumerate().skip(1) {
+        factorial *= T::from_usize(i)?;
+        let psi = eval_polygamma(i32::try_from(i).ok()? - 1, one - s)? / factorial;
+        *coeff = if i % 2 == 0 { psi } else { -psi };
+    }
+    let mut gamma = vec![T::zero(); len];
+    gamma[0] = eval_gamma(one - s)?;
+    for i in 1..len {
+        let mut acc = T::zero();
+        for j in 1..=i {
+            acc += T::from_usize(j)? * log_gamma[j] * gamma[i - j];
+        }
+        gamma[i] = acc / T::from_usize(i)?;
     }
 
-    // For n >= 4, use 5-point stencil
-    let two_h = two * h;
-
-    let zeta_plus2 = eval_zeta_reflection_base(s + two_h)?;
-    let zeta_plus1 = eval_zeta_reflection_base(s + h)?;
-    let zeta_center = eval_zeta_reflection_base(s)?;
-    let zeta_minus1 = eval_zeta_reflection_base(s - h)?;
-    let zeta_minus2 = eval_zeta_reflection_base(s - two_h)?;
-
-    if n == 4 {
-        // d⁴f/dx⁴ ≈ (f(x+2h) - 4f(x+h) + 6f(x) - 4f(x-h) + f(x-2h)) / h⁴
-        let six = T::from_f64(6.0).expect("Failed to convert constant 6.0");
-        return Some(
-            (zeta_plus2 - four * zeta_plus1 + six * zeta_center - four * zeta_minus1 + zeta_minus2)
-                / (h * h * h * h),
-        );
+    // ζ(1-s-t)
+    let mut zeta = zeta_taylor_euler_maclaurin(len, one - s)?;
+    for coeff in zeta.iter_mut().skip(1).step_by(2) {
+        *coeff = -*coeff;
     }
 
-    // For n >= 5: recursive centered difference
-    // d^n f / dx^n ≈ [d^(n-1)f(x+h) - d^(n-1)f(x-h)] / (2h)
-    let deriv_plus = centered_finite_diff(n - 1, s + h, h)?;
-    let deriv_minus = centered_finite_diff(n - 1, s - h, h)?;
-    Some((deriv_plus - deriv_minus) / (two * h))
+    let trig = taylor_product(&power, &sine);
+    Some(taylor_product(&taylor_product(&trig, &gamma), &zeta))
 }
 
 /// Lambert W function: W(x) is the solution to W·e^W = x
-- 
2.43.0


From 475c5040b76ee776d9077bb8fa56eb0ec7121c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 14/40] fix: zeta of small negative and gamma of large
 arguments stay finite

---
 src/math/special.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index d56bd0b..ecab0c5 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -118,7 +118,9 @@ pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
         }
         let t = x + g + half;
         let two_pi_sqrt = (T::from_f64(2.0).expect("Failed to convert constant 2.0") * pi).sqrt();
-        Some(two_pi_sqrt * t.powf(x + half) * (-t).exp() * ag)
+        // Split the power: it leaves the range of double precision before Γ(x) does
+        let half_power = t.powf((x + half) * half);
+        Some(two_pi_sqrt * half_power * (-t).exp() * half_power * ag)
     }
 }
 
@@ -260,8 +262,10 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
         return None;
     }
 
-    // Use reflection for s < 0 to ensure fast convergence for negative values
-    if x < T::zero() {
+    // Use reflection for negative values to ensure fast convergence. Close to zero the
+    // reflected argument approaches the pole at s = 1, and the series below converges anyway.
+    let reflect_below = T::from(-0.5).expect("Failed to convert mathematical constant");
+    if x < reflect_below {
         let pi = T::PI();
         let two = T::from(2.0).expect("Failed to convert mathematical constant");
         let gs = eval_gamma(one - x)?;
@@ -272,7 +276,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
         return Some(term1 * term2 * term3 * gs * z);
     }
 
-    // For s >= 0 (and s != 1):
+    // For s >= -0.5 (and s != 1):
     // Use Enhanced Euler-Maclaurin for 1 < s <= 1.5 where series converges slowly
     let one_point_five = T::from(1.5).expect("Failed to convert mathematical constant");
     if x > one && x <= one_point_five {
-- 
2.43.0


From 20238fa7739a5d82bfe86480e43bfc881ef6e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 15/40] fix: Bessel functions of higher order are normalised
 correctly and do not overflow on the way

---
 src/math/bessel.rs | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index da5146a..b4958ea 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -87,6 +87,8 @@ fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
 
     let mut k_t = T::from(n_start).expect("Failed to convert start index");
 
+    let rescale_above = T::from_f64(1e200).expect("Failed to convert mathematical constant");
+
     // Backward recurrence: J_{k-1} = (2k/x) J_k - J_{k+1}
     for k in (0..=n_start).rev() {
         let j_prev = (two * k_t / x) * j_curr - j_next;
@@ -116,6 +118,15 @@ fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
         j_next = j_curr;
         j_curr = j_prev;
         k_t -= T::one();
+
+        // Every value so far is known up to a common factor only: keep it in range
+        if j_curr.abs() > rescale_above {
+            j_next /= rescale_above;
+            j_curr /= rescale_above;
+            result /= rescale_above;
+            sum /= rescale_above;
+            compensation /= rescale_above;
+        }
     }
 
     // Normalize: true J_n = (computed J_n) / (computed sum)
@@ -428,7 +439,7 @@ pub fn bessel_y1<T: MathScalar>(x: T) -> T {
 /// Modified Bessel function of the first kind `I_n(x)`
 ///
 /// Uses Miller's backward recurrence algorithm for numerical stability.
-/// I_{k-1} = (2k/x) `I_k` + I_{k+1}, normalized using `I_0(x)`.
+/// I_{k-1} = (2k/x) `I_k` + I_{k+1}, normalized using `I_0(x)` + 2 Σ `I_2k(x)` = cosh(x).
 ///
 /// Reference: Numerical Recipes §6.6, A&S §9.6 <https://dlmf.nist.gov/10.25>
 pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
@@ -448,23 +459,18 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     // Miller's backward recurrence algorithm
     // Start from a large order N >> n, set I_N = 0, I_{N-1} = 1
     // Recur backward using: I_{k-1} = (2k/x) * I_k + I_{k+1}
-    // Normalize using I_0(x) as reference
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
 
-    // Choose starting order N based on x and n
-    // Empirical formula: N = n + sqrt(40*n) + 10 works well
-    // The factor 40 comes from numerical stability analysis:
-    // - Ensures backward recurrence converges before reaching target order
-    // - Balances computational cost vs. accuracy (see NR §6.6)
-    // - Tested empirically for x ∈ [0.1, 100], n ∈ [0, 100]
+    // Choose starting order N based on x and n: I_N/I_n decays like exp((n² - N²)/(2|x|))
+    // as long as N does not exceed |x|, and faster than geometrically beyond
     #[allow(
         clippy::cast_possible_truncation,
         reason = "n_abs is i32, sqrt result within safe range"
     )]
-    let sqrt_term = f64::from(40 * n_abs).sqrt() as i32;
-    let n_start = n_abs + sqrt_term + 10;
-    let n_start = n_start.max(n_abs + 20);
+    let sqrt_term = (f64::from(40 * n_abs).sqrt()
+        + (80.0 * x.abs().to_f64().unwrap_or(f64::NAN).min(1e6)).sqrt()) as i32;
+    let n_start = n_abs + sqrt_term + 20;
 
     // Initialize backward recurrence
     let mut i_next = T::zero(); // I_{k+1}
@@ -472,6 +478,7 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     let mut result = T::zero();
     let mut sum = T::zero(); // For normalization: sum = I_0 + 2*(I_2 + I_4 + ...)
     let mut k_t = T::from(n_start).expect("Failed to convert start index");
+    let rescale_above = T::from(1e200).expect("Failed to convert mathematical constant");
 
     // Backward recurrence
     for k in (0..=n_start).rev() {
@@ -493,12 +500,18 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
         i_next = i_curr;
         i_curr = i_prev;
         k_t -= T::one();
+
+        // Every value so far is known up to a common factor only: keep it in range
+        if i_curr.abs() > rescale_above {
+            i_next /= rescale_above;
+            i_curr /= rescale_above;
+            result /= rescale_above;
+            sum /= rescale_above;
+        }
     }
 
-    // Normalize: actual I_n = result * I_0(x) / computed_I_0
-    // The sum approximates I_0 when properly normalized
-    let i0_actual = bessel_i0(x);
-    let scale = i0_actual / sum;
+    // Normalize: the values sum up to I_0(x) + 2*(I_2(x) + I_4(x) + ...) = cosh(x)
+    let scale = x.cosh() / sum;
 
     result * scale
 }
-- 
2.43.0


From 5bcd6536677b6764c24873dcb5f4335b2e2ea31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 16/40] fix: coefficients of Bessel K and large-argument J0, Y0
 approximations; K1 takes the logarithm of x/2

---
 src/math/bessel.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index b4958ea..d21111c 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -193,7 +193,7 @@ pub fn bessel_j0<T: MathScalar>(x: T) -> T {
         0.143_048_876_5e-3,
         -0.691_114_765_1e-5,
         0.762_109_516_1e-6,
-        0.934_935_152e-7,
+        -0.934_935_152e-7,
     ];
 
     let ax = x.abs();
@@ -349,7 +349,7 @@ pub fn bessel_y0<T: MathScalar>(x: T) -> T {
         0.143_048_876_5e-3,
         -0.691_114_765_1e-5,
         0.762_109_516_1e-6,
-        0.934_935_152e-7,
+        -0.934_935_152e-7,
     ];
 
     let eight = T::from(8.0).expect("Failed to convert mathematical constant");
@@ -643,7 +643,7 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.000_007_4,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         -0.078_323_58,
         0.021_895_68,
@@ -651,7 +651,6 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.005_878_72,
         -0.002_515_40,
         0.000_532_08,
-        -0.000_025_200,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -683,7 +682,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.000_046_86,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         0.234_986_19,
         -0.036_556_20,
@@ -691,7 +690,6 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.007_803_53,
         0.003_256_14,
         -0.000_682_45,
-        0.000_031_6,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -699,7 +697,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         let four = T::from(4.0).expect("Failed to convert mathematical constant");
         let y = x * x / four;
 
-        let term1 = x.ln() * bessel_i1(x);
+        let term1 = (x / two).ln() * bessel_i1(x);
         let term2 = T::one() / x;
 
         let poly = eval_poly_horner(y, &COEFFS);
-- 
2.43.0


From 34cf2f3b334d950ff64c15970e00e2f0779f24d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 17/40] fix: compiled acot has the range of the interpreted one

---
 src/evaluator/compiler.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index fd50af1..d079bc2 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1288,9 +1288,13 @@ impl<'ctx> Compiler<'ctx> {
             self.emit(Instruction::Sin);
             Instruction::Recip
         } else if id == ks.acot {
-            // acot(x) = atan(1/x)
-            self.emit(Instruction::Recip);
-            Instruction::Atan
+            // acot(x) = atan2(1, x), with values in (0, π)
+            let one_idx = self.add_const(1.0);
+            self.emit(Instruction::LoadConst(one_idx));
+            self.push()?;
+            self.emit(Instruction::Swap);
+            self.pop();
+            Instruction::Atan2
         } else if id == ks.asec {
             // asec(x) = acos(1/x)
             self.emit(Instruction::Recip);
-- 
2.43.0


From 1982c7739ba25eb81d01f560627f1885a2cabe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 18/40] fix: eval_batch reserves the whole SIMD stack in a
 reused buffer

---
 src/evaluator/simd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index 6b50968..def95d9 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -141,7 +141,7 @@ impl CompiledEvaluator {
         )]
         let simd_stack_buf: &mut Vec<f64x4> = match simd_buffer {
             Some(buf) => {
-                buf.reserve(self.stack_size.saturating_sub(buf.capacity()));
+                buf.reserve(self.stack_size.saturating_sub(buf.len()));
                 buf
             }
             None => {
-- 
2.43.0


From 7e3b7ef5e3f481ce73a5ff4516c974f95c29c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 19/40] fix: sinh, tanh, coth and csch recognised from
 exponentials keep the sign

---
 src/simplification/rules/hyperbolic/conversions.rs | 10 +++++-----
 src/simplification/rules/hyperbolic/helpers.rs     |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simplification/rules/hyperbolic/conversions.rs b/src/simplification/rules/hyperbolic/conversions.rs
index f39a881..4e2ea69 100644
--- a/src/simplification/rules/hyperbolic/conversions.rs
+++ b/src/simplification/rules/hyperbolic/conversions.rs
@@ -1,6 +1,6 @@
 use super::helpers::{
-    ExpTerm, extract_negated_term, is_double_of, match_alt_cosh_pattern, match_alt_sech_pattern,
-    match_alt_sinh_pattern, match_cosh_pattern, match_e2x_minus_1_direct,
+    ExpTerm, extract_negated_term, get_positive_form, is_double_of, match_alt_cosh_pattern,
+    match_alt_sech_pattern, match_alt_sinh_pattern, match_cosh_pattern, match_e2x_minus_1_direct,
     match_e2x_minus_1_factored, match_e2x_plus_1, match_sinh_pattern_sub,
 };
 use crate::core::expr::{Expr, ExprKind as AstKind};
@@ -108,7 +108,7 @@ rule!(
             };
 
             if let (Some(n_arg), Some(d_arg)) = (num_arg, den_arg)
-                && n_arg == d_arg
+                && get_positive_form(&n_arg) == d_arg
             {
                 return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.tanh), n_arg));
             }
@@ -282,9 +282,9 @@ rule!(
             };
 
             if let (Some(n_arg), Some(d_arg)) = (num_arg, den_arg)
-                && n_arg == d_arg
+                && n_arg == get_positive_form(&d_arg)
             {
-                return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.coth), n_arg));
+                return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.coth), d_arg));
             }
 
             if let Some(x_num) = match_e2x_plus_1(numerator)
diff --git a/src/simplification/rules/hyperbolic/helpers.rs b/src/simplification/rules/hyperbolic/helpers.rs
index ae722d7..e0e4dc1 100644
--- a/src/simplification/rules/hyperbolic/helpers.rs
+++ b/src/simplification/rules/hyperbolic/helpers.rs
@@ -183,7 +183,7 @@ pub fn match_cosh_pattern(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 }
 
 /// Try to match the pattern (e^x - e^(-x)) for sinh detection
-/// Returns Some(x) if pattern matches (always returns the positive argument as Arc)
+/// Returns Some(x) if pattern matches; the sign of the argument is kept, since sinh is odd
 pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
     // u should be e^x, v should be e^(-x)
     let exp1 = ExpTerm::from_expr(u)?;
@@ -191,7 +191,7 @@ pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 
     // Check if exp2.arg = -exp1.arg (so u = e^x, v = e^(-x))
     if exp2.is_negation_of(&exp1.arg) {
-        return Some(get_positive_form(&exp1.arg));
+        return Some(exp1.arg);
     }
     None
 }
-- 
2.43.0


From 4a3af7211ea82152bc2e9e2e43ca2544ba0487c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 20/40] fix: a letter e after a number is an exponent only when
 digits follow

---
 src/parser/lexer.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 55a44f1..b9f457d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -391,13 +391,18 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
                         '0'..='9' | '.' | '_' => {
                             pos += 1;
                         }
-                        'e' | 'E' if !has_exponent => {
+                        // An exponent needs a digit: "2e3", "2e-3"; otherwise a name starts
+                        // here, as in "2e", "2exp(x)" or "2e-x"
+                        'e' | 'E'
+                            if !has_exponent
+                                && input.get(pos + 1..).is_some_and(|rest| {
+                                    rest.strip_prefix(['+', '-'])
+                                        .unwrap_or(rest)
+                                        .starts_with(|d: char| d.is_ascii_digit())
+                                }) =>
+                        {
                             has_exponent = true;
-                            pos += 1;
-                            // Handle optional sign after exponent
-                            if pos < bytes.len() && (bytes[pos] == b'+' || bytes[pos] == b'-') {
-                                pos += 1;
-                            }
+                            pos += 2; // the letter, and the sign or first digit
                         }
                         _ => break,
                     }
-- 
2.43.0


From d7e06159de0239969e2a4fbfbfe394385e78960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 21/40] fix: long runs of one-letter symbols no longer recurse
 once per letter

---
 src/parser/lexer.rs | 56 +++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index b9f457d..f2b9d59 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -554,16 +554,37 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
     next_is_paren: bool,
     output: &mut Vec<Token<'src>>,
 ) {
+    // Fixed variables split off the front one by one: a loop, since there can be many of them
+    let mut rest = (seq, next_is_paren);
+    while let Some(next) =
+        resolve_sequence_start(rest.0, fixed_vars, custom_functions, rest.1, output)
+    {
+        rest = (next, false);
+    }
+}
+
+/// Resolve a sequence, or the fixed variable at its start; returns what is left of it
+#[allow(
+    clippy::string_slice,
+    reason = "Slicing by char indices yields valid UTF-8 sequences"
+)]
+fn resolve_sequence_start<'src, S: std::hash::BuildHasher>(
+    seq: &'src str,
+    fixed_vars: &HashSet<String, S>,
+    custom_functions: &HashSet<String, S>,
+    next_is_paren: bool,
+    output: &mut Vec<Token<'src>>,
+) -> Option<&'src str> {
     // Priority 1: Check if entire sequence is in fixed_vars
     if fixed_vars.contains(seq) {
         output.push(Token::Identifier(Cow::Borrowed(seq)));
-        return;
+        return None;
     }
 
     // Priority 1.5: Check for known constants (pi, e)
     if crate::core::known_symbols::is_known_constant(seq) {
         output.push(Token::Identifier(Cow::Borrowed(seq)));
-        return;
+        return None;
     }
 
     // Priority 2: Check if it's a built-in function followed by (
@@ -573,13 +594,13 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
         && let Some(op) = Operator::parse_str(seq)
     {
         output.push(Token::Operator(op));
-        return;
+        return None;
     }
 
     // Priority 3: Check if it's a custom function followed by (
     if custom_functions.contains(seq) && next_is_paren {
         output.push(Token::Identifier(Cow::Borrowed(seq)));
-        return;
+        return None;
     }
 
     // Priority 4: Scan for built-in functions as substrings (if followed by paren)
@@ -608,7 +629,7 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
                     output.push(Token::Operator(op));
                 }
 
-                return;
+                return None;
             }
         }
     }
@@ -618,37 +639,21 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
     if seq.chars().all(is_identifier_continue) {
         // Check if any prefix is a fixed variable
         // Use char_indices for Unicode-safe slicing
-        let char_boundaries: Vec<usize> = seq.char_indices().map(|(i, _)| i).collect();
-        for (char_idx, _byte_idx) in char_boundaries.iter().enumerate() {
-            // Include end of string as a valid slice point
-            let end_byte = if char_idx + 1 < char_boundaries.len() {
-                char_boundaries[char_idx + 1]
-            } else {
-                seq.len()
-            };
+        for (start, c) in seq.char_indices() {
+            let end_byte = start + c.len_utf8();
             let prefix = seq.get(0..end_byte).expect("Checked char boundaries");
             if fixed_vars.contains(prefix) {
                 // Found a fixed variable prefix, split here
                 let rest = seq.get(end_byte..).expect("Checked char boundaries");
                 output.push(Token::Identifier(Cow::Borrowed(prefix)));
-                if !rest.is_empty() {
-                    // Recursively resolve the rest
-                    resolve_sequence(
-                        rest,
-                        fixed_vars,
-                        custom_functions,
-                        next_is_paren && end_byte == seq.len(),
-                        output,
-                    );
-                }
-                return;
+                return (!rest.is_empty()).then_some(rest);
             }
         }
 
         // No fixed variable prefix found, treat as single identifier
         // This preserves multi-character Unicode identifiers like "αβ" or "θ₁"
         output.push(Token::Identifier(Cow::Borrowed(seq)));
-        return;
+        return None;
     }
 
     // Priority 6 (FINAL FALLBACK): Split into individual characters (for complex sequences)
@@ -658,6 +663,7 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
         let end = char_indices.peek().copied().unwrap_or(seq.len());
         output.push(Token::Identifier(Cow::Borrowed(&seq[start..end])));
     }
+    None
 }
 
 /// Parse derivative notation like ∂^`1_f(x)`/∂_x^1
-- 
2.43.0


From 8442f7a61e415a8ebdae71b7a05a453e50ddf994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 22/40] fix: deeply nested input is reported instead of
 overflowing the stack

---
 src/parser/pratt.rs | 74 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 6 deletions(-)

diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 0bef3f5..7105c48 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -8,6 +8,12 @@ use crate::{DiffError, Expr};
 
 use crate::core::unified_context::Context;
 
+/// Maximum nesting depth of the input and of the resulting expression
+///
+/// Parsing, and everything that is later done with an expression, is recursive: without
+/// a limit, deeply nested input overflows the stack.
+const MAX_DEPTH: usize = 400;
+
 /// Parse tokens into an AST using Pratt parsing algorithm
 #[inline]
 pub fn parse_expression(
@@ -22,6 +28,8 @@ pub fn parse_expression(
         tokens,
         pos: 0,
         context,
+        nesting: 0,
+        height: 0,
     };
 
     let expr = parser.parse_expr(0)?;
@@ -45,6 +53,10 @@ struct Parser<'tokens, 'src> {
     pos: usize,
     /// Optional context for parsing
     context: Option<&'tokens Context>,
+    /// Number of enclosing groups, calls, prefix operators and powers
+    nesting: usize,
+    /// Height of the expression parsed last
+    height: usize,
 }
 
 impl<'src> Parser<'_, 'src> {
@@ -60,10 +72,32 @@ impl<'src> Parser<'_, 'src> {
         self.pos += 1;
     }
 
+    /// Record the height of the expression parsed last
+    const fn set_height(&mut self, height: usize) -> Result<(), DiffError> {
+        self.height = height;
+        if height > MAX_DEPTH {
+            return Err(DiffError::MaxDepthExceeded);
+        }
+        Ok(())
+    }
+
+    /// Parse an expression one nesting level further down
+    fn parse_nested(&mut self, min_precedence: u8) -> Result<Expr, DiffError> {
+        if self.nesting >= MAX_DEPTH {
+            return Err(DiffError::MaxDepthExceeded);
+        }
+        self.nesting += 1;
+        let expr = self.parse_expr(min_precedence)?;
+        self.nesting -= 1;
+        Ok(expr)
+    }
+
     /// Parse an expression with precedence
     fn parse_expr(&mut self, min_precedence: u8) -> Result<Expr, DiffError> {
         // Parse left side (prefix)
         let mut left = self.parse_prefix()?;
+        // Whether `left` is a product written without parentheses (further factors join it)
+        let mut in_product = false;
 
         // Parse operators and right side (infix)
         while let Some(token) = self.current() {
@@ -86,7 +120,15 @@ impl<'src> Parser<'_, 'src> {
                 continue;
             }
 
+            let joins = matches!(token, Token::Operator(Operator::Mul));
+            let left_height = self.height;
             left = self.parse_infix(left, precedence)?;
+            self.set_height(if joins && in_product {
+                left_height.max(self.height + 1)
+            } else {
+                left_height.max(self.height) + 1
+            })?;
+            in_product = joins;
         }
 
         Ok(left)
@@ -96,6 +138,7 @@ impl<'src> Parser<'_, 'src> {
     /// This avoids O(N²) cascading when parsing large sums like "a + b + c + d + ..."
     fn parse_additive_chain(&mut self, first: Expr) -> Result<Expr, DiffError> {
         let mut terms: Vec<Expr> = vec![first];
+        let mut height = self.height;
 
         loop {
             let is_add = match self.current() {
@@ -110,6 +153,7 @@ impl<'src> Parser<'_, 'src> {
                     // Parse next term at precedence 11 (higher than additive)
                     // This ensures we stop at the next + or - at the same level
                     let term = self.parse_expr(11)?;
+                    height = height.max(self.height);
 
                     if add {
                         terms.push(term);
@@ -122,6 +166,7 @@ impl<'src> Parser<'_, 'src> {
             }
         }
 
+        self.set_height(height + 1)?;
         if terms.len() == 1 {
             Ok(terms
                 .pop()
@@ -134,13 +179,16 @@ impl<'src> Parser<'_, 'src> {
     /// Parse function arguments
     fn parse_arguments(&mut self) -> Result<Vec<Expr>, DiffError> {
         let mut args = Vec::new();
+        let mut height = 0;
 
         if matches!(self.current(), Some(Token::RightParen)) {
+            self.height = 1;
             return Ok(args); // Empty argument list
         }
 
         loop {
-            args.push(self.parse_expr(0)?);
+            args.push(self.parse_nested(0)?);
+            height = height.max(self.height);
 
             match self.current() {
                 Some(Token::Comma) => {
@@ -159,6 +207,7 @@ impl<'src> Parser<'_, 'src> {
             }
         }
 
+        self.set_height(height + 1)?;
         Ok(args)
     }
 
@@ -178,11 +227,13 @@ impl<'src> Parser<'_, 'src> {
         match token {
             Token::Number(n) => {
                 self.advance();
+                self.height = 1;
                 Ok(Expr::number(*n))
             }
 
             Token::Identifier(name) => {
                 self.advance();
+                self.height = 1;
 
                 // Check if this is a function call
                 if matches!(self.current(), Some(Token::LeftParen)) {
@@ -267,19 +318,20 @@ impl<'src> Parser<'_, 'src> {
             // This ensures -x^2 parses as -(x^2), not (-x)^2
             Token::Operator(Operator::Sub) => {
                 self.advance();
-                let expr = self.parse_expr(25)?; // Lower than Pow (30), higher than Mul (20)
+                let expr = self.parse_nested(25)?; // Lower than Pow (30), higher than Mul (20)
+                self.set_height(self.height + 1)?;
                 Ok(Expr::mul_expr(Expr::number(-1.0), expr))
             }
 
             // Unary plus: same precedence as unary minus, just returns the expression
             Token::Operator(Operator::Add) => {
                 self.advance();
-                self.parse_expr(25) // Same precedence as unary minus
+                self.parse_nested(25) // Same precedence as unary minus
             }
 
             Token::LeftParen => {
                 self.advance(); // consume (
-                let expr = self.parse_expr(0)?;
+                let expr = self.parse_nested(0)?;
 
                 if matches!(self.current(), Some(Token::RightParen)) {
                     self.advance(); // consume )
@@ -300,6 +352,7 @@ impl<'src> Parser<'_, 'src> {
                 var,
             } => {
                 self.advance();
+                self.height = 3;
 
                 let arg_exprs =
                     if args.is_empty() {
@@ -316,14 +369,18 @@ impl<'src> Parser<'_, 'src> {
                             tokens: args,
                             pos: 0,
                             context: self.context,
+                            nesting: self.nesting,
+                            height: 0,
                         };
                         let mut exprs = Vec::new();
+                        let mut height = 0;
 
                         loop {
                             if sub_parser.current().is_none() {
                                 break;
                             }
-                            let expr = sub_parser.parse_expr(0)?;
+                            let expr = sub_parser.parse_nested(0)?;
+                            height = height.max(sub_parser.height);
                             exprs.push(expr);
 
                             if matches!(sub_parser.current(), Some(Token::Comma)) {
@@ -340,6 +397,7 @@ impl<'src> Parser<'_, 'src> {
                                 break;
                             }
                         }
+                        self.set_height(height + 2)?;
                         exprs
                     };
 
@@ -380,7 +438,11 @@ impl<'src> Parser<'_, 'src> {
                     precedence + 1 // Left associative
                 };
 
-                let right = self.parse_expr(next_precedence)?;
+                let right = if matches!(op, Operator::Pow) {
+                    self.parse_nested(next_precedence)?
+                } else {
+                    self.parse_expr(next_precedence)?
+                };
 
                 let result = match op {
                     Operator::Add => Expr::add_expr(left, right),
-- 
2.43.0


From bc00e93d7b6fd20c9d663c8be1932b70dfc7141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 23/40] fix: a trailing comma in derivative notation is an
 error

---
 src/parser/pratt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 7105c48..8ef93e2 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -385,6 +385,9 @@ impl<'src> Parser<'_, 'src> {
 
                             if matches!(sub_parser.current(), Some(Token::Comma)) {
                                 sub_parser.advance();
+                                if sub_parser.current().is_none() {
+                                    return Err(DiffError::UnexpectedEndOfInput);
+                                }
                             } else {
                                 // If not comma, we expect end of input (sub-parser exhausted)
                                 if sub_parser.current().is_some() {
-- 
2.43.0


From 809d9b65fec50a06a95af0fa40de08470c5b652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 24/40] fix: evaluating a built-in function with a wrong number
 of arguments no longer panics

---
 src/core/expr/evaluate.rs               | 1 +
 src/simplification/rules/numeric/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/expr/evaluate.rs b/src/core/expr/evaluate.rs
index 8663483..c15c46f 100644
--- a/src/core/expr/evaluate.rs
+++ b/src/core/expr/evaluate.rs
@@ -146,6 +146,7 @@ impl Expr {
                     }
                     if let Some(func_def) =
                         crate::functions::registry::Registry::get_by_symbol(name)
+                        && func_def.validate_arity(args_vec.len())
                         && let Some(result) = (func_def.eval)(&args_vec)
                     {
                         return Self::number(result);
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 3323406..387b323 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -566,6 +566,7 @@ rule!(
 
             // Try built-in function registry first (via InternedSymbol ID)
             if let Some(func_def) = crate::functions::registry::Registry::get_by_symbol(name)
+                && func_def.validate_arity(numeric_args.len())
                 && let Some(result) = (func_def.eval)(&numeric_args)
             {
                 // Check for NaN or Inf
-- 
2.43.0


From 5952b9cf8aa7dbcdc9cdc0dbd9a7cdc135c89934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 25/40] fix: LaTeX derivative notation lost the operand's
 grouping and the Greek variable name

---
 src/core/display.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index fd215fc..46393dc 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -1219,21 +1219,22 @@ fn format_latex(
         ExprKind::Pow(u, v) => format_pow_expr(f, u, v, FormatMode::Latex, cache),
 
         ExprKind::Derivative { inner, var, order } => {
+            let var = greek_to_latex(var.as_str()).unwrap_or(var.as_str());
+            // Anything but a function call or symbol is grouped: the operator applies to all of it
+            let (open, close) = match &inner.kind {
+                ExprKind::FunctionCall { .. } | ExprKind::Symbol(_) => ("", ""),
+                _ => (r"\left(", r"\right)"),
+            };
+            let inner = LatexFormatter { expr: inner, cache };
             if *order == 1 {
                 write!(
                     f,
-                    r"\frac{{\partial {}}}{{\partial {}}}",
-                    LatexFormatter { expr: inner, cache },
-                    var
+                    r"\frac{{\partial {open}{inner}{close}}}{{\partial {var}}}"
                 )
             } else {
                 write!(
                     f,
-                    r"\frac{{\partial^{{{}}} {}}}{{\partial {}^{{{}}}}}",
-                    order,
-                    LatexFormatter { expr: inner, cache },
-                    var,
-                    order
+                    r"\frac{{\partial^{{{order}}} {open}{inner}{close}}}{{\partial {var}^{{{order}}}}}"
                 )
             }
         }
@@ -1335,7 +1336,7 @@ fn format_unicode(
                 "\u{2202}{}({})/\u{2202}{}{}",
                 sup,
                 UnicodeFormatter { expr: inner, cache },
-                var,
+                greek_to_unicode(var.as_str()).unwrap_or(var.as_str()),
                 sup
             )
         }
-- 
2.43.0


From 9497c96fc1febfdbb1cb566bca913ebf113bbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 26/40] fix: symb() returned the removed identity after
 remove_symbol or clear_symbols

---
 src/core/symbol/registry.rs | 43 ++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 1a887ac..df7e382 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -4,6 +4,7 @@
 //! This implementation uses sharding to minimize lock contention and `FxHash` for
 //! high-performance mapping.
 
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Mutex, RwLock};
 
 use rustc_hash::{FxHashMap, FxHasher};
@@ -108,7 +109,33 @@ impl SymbolRegistry {
 static REGISTRY: std::sync::LazyLock<SymbolRegistry> =
     std::sync::LazyLock::new(SymbolRegistry::new);
 
+/// Incremented whenever names are removed, so that every thread drops its name cache.
+///
+/// Only changed while the shard lock of the removed name is held: a thread that reads it under
+/// that lock knows whether its cache still describes the registry.
+static REMOVALS: AtomicU64 = AtomicU64::new(0);
+
+/// Drop this thread's name cache if names were removed since it was filled.
+fn refresh_names() {
+    let removals = REMOVALS.load(Ordering::Acquire);
+    if CACHED_AT.with(|at| at.replace(removals)) != removals {
+        NAME_CACHE.with(|cache| cache.borrow_mut().clear());
+    }
+}
+
+/// Remember a name looked up when `removals` removals had happened.
+fn cache_name(name: &str, sym: Symbol, removals: u64) {
+    if CACHED_AT.with(std::cell::Cell::get) == removals {
+        NAME_CACHE.with(|cache| {
+            cache.borrow_mut().insert(name.to_owned(), sym);
+        });
+    }
+}
+
 thread_local! {
+    // The number of removals this thread's name cache takes into account
+    static CACHED_AT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
+
     // Thread-local cache to avoid global lock contention on frequently accessed symbols
     static ID_CACHE: std::cell::RefCell<FxHashMap<DefaultKey, InternedSymbol>> = std::cell::RefCell::new(FxHashMap::default());
 
@@ -222,6 +249,7 @@ pub fn symbol_exists(name: &str) -> bool {
 #[must_use]
 pub fn symb(name: &str) -> Symbol {
     // Fast path: check TLS cache first (no locks, no allocations for common symbols)
+    refresh_names();
     if let Some(sym) = NAME_CACHE.with(|cache| cache.borrow().get(name).copied()) {
         return sym;
     }
@@ -235,11 +263,10 @@ pub fn symb(name: &str) -> Symbol {
     // Check if the symbol already exists.
     if let Some(&key) = shard.name_to_symbol_key.get(name) {
         let sym = Symbol(key);
+        let removals = REMOVALS.load(Ordering::Acquire);
         // Populate TLS cache for future lookups
         drop(shard); // Release lock before TLS operation
-        NAME_CACHE.with(|cache| {
-            cache.borrow_mut().insert(name.to_owned(), sym);
-        });
+        cache_name(name, sym, removals);
         return sym;
     }
 
@@ -250,13 +277,12 @@ pub fn symb(name: &str) -> Symbol {
         .expect("Global ID registry poisoned")
         .insert_with_key(|k| InternedSymbol::new_named(name, k));
     shard.name_to_symbol_key.insert(name.to_owned(), key);
+    let removals = REMOVALS.load(Ordering::Acquire);
     drop(shard);
 
     let sym = Symbol(key);
     // Populate TLS cache
-    NAME_CACHE.with(|cache| {
-        cache.borrow_mut().insert(name.to_owned(), sym);
-    });
+    cache_name(name, sym, removals);
     sym
 }
 
@@ -284,6 +310,7 @@ pub fn remove_symbol(name: &str) -> bool {
         .expect("Global symbol registry shard poisoned");
 
     shard.name_to_symbol_key.remove(name).is_some_and(|key| {
+        REMOVALS.fetch_add(1, Ordering::Release);
         // Explicitly drop shard lock before taking id_data lock to avoid deadlocks
         drop(shard);
         REGISTRY
@@ -301,15 +328,15 @@ pub fn remove_symbol(name: &str) -> bool {
 ///
 /// Panics if any global registry lock is poisoned.
 pub fn clear_symbols() {
-    // Clear TLS caches first
+    // Clear TLS cache first
     ID_CACHE.with(|cache| cache.borrow_mut().clear());
-    NAME_CACHE.with(|cache| cache.borrow_mut().clear());
 
     for shard_lock in &REGISTRY.shards {
         let mut shard = shard_lock
             .lock()
             .expect("Global symbol registry shard poisoned");
         shard.name_to_symbol_key.clear();
+        REMOVALS.fetch_add(1, Ordering::Release);
     }
 
     let mut id_data = REGISTRY
-- 
2.43.0


From 5422a666e0beec4cac1a1082393014c456526720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:19 +0000
Subject: [PATCH 27/40] fix: clear_symbols took the names of anonymous and
 context symbols with it

---
 src/core/symbol/registry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index df7e382..d782e62 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -331,11 +331,13 @@ pub fn clear_symbols() {
     // Clear TLS cache first
     ID_CACHE.with(|cache| cache.borrow_mut().clear());
 
+    // Anonymous symbols and the symbols of contexts are not in any shard and stay
+    let mut removed = Vec::new();
     for shard_lock in &REGISTRY.shards {
         let mut shard = shard_lock
             .lock()
             .expect("Global symbol registry shard poisoned");
-        shard.name_to_symbol_key.clear();
+        removed.extend(shard.name_to_symbol_key.drain().map(|(_, key)| key));
         REMOVALS.fetch_add(1, Ordering::Release);
     }
 
@@ -343,7 +345,9 @@ pub fn clear_symbols() {
         .id_to_data
         .write()
         .expect("Global ID registry poisoned");
-    id_data.clear();
+    for key in removed {
+        id_data.remove(key);
+    }
 }
 
 /// Get the number of registered symbols
-- 
2.43.0


From a2ee95dd3e0c0a01bd7ffa01deebbc56332b39c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 28/40] fix: built-in functions were not recognised any more
 after clear_symbols or removal of their name

---
 src/core/known_symbols.rs   |  4 ++--
 src/core/symbol/mod.rs      |  2 +-
 src/core/symbol/registry.rs | 40 +++++++++++++++++++++++++++++++++++--
 src/functions/registry.rs   |  4 ++--
 4 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/core/known_symbols.rs b/src/core/known_symbols.rs
index 67fde8c..6fbb5af 100644
--- a/src/core/known_symbols.rs
+++ b/src/core/known_symbols.rs
@@ -3,12 +3,12 @@
 //! This module provides lazily-initialized symbol IDs for common function names.
 //! Comparison is O(1) - just a u64 integer comparison.
 
-use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_interned};
+use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_builtin};
 use std::sync::LazyLock;
 
 /// Get the ID for an interned symbol (helper for the macro)
 fn intern_id(name: &str) -> u64 {
-    symb_interned(name).id()
+    symb_builtin(name).id()
 }
 
 /// Collection of pre-interned symbol IDs for all built-in mathematical functions.
diff --git a/src/core/symbol/mod.rs b/src/core/symbol/mod.rs
index 97a3484..22aacc9 100644
--- a/src/core/symbol/mod.rs
+++ b/src/core/symbol/mod.rs
@@ -36,7 +36,7 @@ pub use registry::{
 };
 
 // Internal re-exports for crate use only
-pub use registry::{lookup_by_id, symb_interned};
+pub use registry::{lookup_by_id, symb_builtin, symb_interned};
 
 use std::sync::Arc;
 
diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index d782e62..70624e3 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -7,7 +7,7 @@
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Mutex, RwLock};
 
-use rustc_hash::{FxHashMap, FxHasher};
+use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
 use slotmap::{DefaultKey, SlotMap};
 use std::hash::Hasher;
 
@@ -61,6 +61,8 @@ const NUM_SHARDS: usize = 16;
 struct RegistryShard {
     /// Mapping from symbol names to their keys
     name_to_symbol_key: FxHashMap<String, DefaultKey>,
+    /// Names of built-in functions and constants: they are recognised by their key, so they keep it
+    builtins: FxHashSet<String>,
 }
 
 /// Unified symbol registry storage
@@ -77,6 +79,7 @@ impl SymbolRegistry {
         let shards: [Mutex<RegistryShard>; NUM_SHARDS] = std::array::from_fn(|_| {
             Mutex::new(RegistryShard {
                 name_to_symbol_key: FxHashMap::default(),
+                builtins: FxHashSet::default(),
             })
         });
 
@@ -296,9 +299,27 @@ pub fn symb_interned(name: &str) -> InternedSymbol {
     lookup_by_id(symbol.id()).expect("Just-created symbol should always be found")
 }
 
+/// Get or create the interned symbol of a built-in function or constant
+///
+/// Such names are neither removed nor cleared.
+///
+/// # Panics
+///
+/// Panics if the global registry shard lock is poisoned.
+pub fn symb_builtin(name: &str) -> InternedSymbol {
+    REGISTRY
+        .get_shard(name)
+        .lock()
+        .expect("Global symbol registry shard poisoned")
+        .builtins
+        .insert(name.to_owned());
+    symb_interned(name)
+}
+
 /// Remove a symbol from the global registry
 ///
 /// Returns `true` if the symbol existed and was removed, `false` otherwise.
+/// Names of built-in functions and constants are not removed.
 ///
 /// # Panics
 ///
@@ -309,6 +330,9 @@ pub fn remove_symbol(name: &str) -> bool {
         .lock()
         .expect("Global symbol registry shard poisoned");
 
+    if shard.builtins.contains(name) {
+        return false;
+    }
     shard.name_to_symbol_key.remove(name).is_some_and(|key| {
         REMOVALS.fetch_add(1, Ordering::Release);
         // Explicitly drop shard lock before taking id_data lock to avoid deadlocks
@@ -324,6 +348,8 @@ pub fn remove_symbol(name: &str) -> bool {
 
 /// Clear all symbols from the global registry
 ///
+/// Names of built-in functions and constants stay.
+///
 /// # Panics
 ///
 /// Panics if any global registry lock is poisoned.
@@ -337,7 +363,17 @@ pub fn clear_symbols() {
         let mut shard = shard_lock
             .lock()
             .expect("Global symbol registry shard poisoned");
-        removed.extend(shard.name_to_symbol_key.drain().map(|(_, key)| key));
+        let RegistryShard {
+            name_to_symbol_key,
+            builtins,
+        } = &mut *shard;
+        name_to_symbol_key.retain(|name, key| {
+            let keep = builtins.contains(name);
+            if !keep {
+                removed.push(*key);
+            }
+            keep
+        });
         REMOVALS.fetch_add(1, Ordering::Release);
     }
 
diff --git a/src/functions/registry.rs b/src/functions/registry.rs
index fbfd850..e27a379 100644
--- a/src/functions/registry.rs
+++ b/src/functions/registry.rs
@@ -33,7 +33,7 @@ impl FunctionDefinition {
     }
 }
 
-use crate::core::symbol::{InternedSymbol, symb_interned};
+use crate::core::symbol::{InternedSymbol, symb_builtin};
 
 /// Static registry storing all function definitions
 /// Maps symbol ID -> `FunctionDefinition` for fast O(1) lookup
@@ -46,7 +46,7 @@ fn init_registry() -> HashMap<u64, FunctionDefinition> {
     // Populate from definitions
     for def in crate::functions::definitions::all_definitions() {
         // Intern the name to get its ID
-        let sym = symb_interned(def.name);
+        let sym = symb_builtin(def.name);
         map.insert(sym.id(), def);
     }
 
-- 
2.43.0


From f1ece38e893fc6b510bec659eb518913cee9f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 29/40] fix: symbol_count counted unnamed and context symbols;
 listings mixed moments of concurrent registration

---
 src/core/symbol/registry.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 70624e3..d004390 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -5,7 +5,7 @@
 //! high-performance mapping.
 
 use std::sync::atomic::{AtomicU64, Ordering};
-use std::sync::{Mutex, RwLock};
+use std::sync::{Mutex, MutexGuard, RwLock};
 
 use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
 use slotmap::{DefaultKey, SlotMap};
@@ -386,17 +386,25 @@ pub fn clear_symbols() {
     }
 }
 
+/// Lock every shard, in order, so that what is read is the content at one moment.
+fn lock_all() -> Vec<MutexGuard<'static, RegistryShard>> {
+    REGISTRY
+        .shards
+        .iter()
+        .map(|shard| shard.lock().expect("Global symbol registry shard poisoned"))
+        .collect()
+}
+
 /// Get the number of registered symbols
 ///
 /// # Panics
 ///
 /// Panics if any global registry shard lock is poisoned.
 pub fn symbol_count() -> usize {
-    let id_data = REGISTRY
-        .id_to_data
-        .read()
-        .expect("Global ID registry poisoned");
-    id_data.len()
+    lock_all()
+        .iter()
+        .map(|shard| shard.name_to_symbol_key.len())
+        .sum()
 }
 
 /// Get a list of all registered symbol names (unsorted for performance)
@@ -407,10 +415,7 @@ pub fn symbol_count() -> usize {
 #[must_use]
 pub fn symbol_names() -> Vec<String> {
     let mut names = Vec::new();
-    for shard_lock in &REGISTRY.shards {
-        let shard = shard_lock
-            .lock()
-            .expect("Global symbol registry shard poisoned");
+    for shard in lock_all() {
         names.extend(shard.name_to_symbol_key.keys().cloned());
     }
     // Removed sorting - caller can sort if needed
-- 
2.43.0


From 58dbc911a5d32c4291fe0a7639367727f49ba26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 30/40] fix: asking a context for a function registered its
 name globally

---
 src/core/unified_context.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 9ae1b97..d0159a5 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -468,16 +468,15 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_user_fn(&self, name: &str) -> Option<&UserFunction> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id)
+        let id = self.fn_name_to_id.get(name)?;
+        self.user_functions.get(id)
     }
 
     /// Check if a function is registered.
     #[inline]
     #[must_use]
     pub fn has_function(&self, name: &str) -> bool {
-        let id = symb_interned(name).id();
-        self.user_functions.contains_key(&id)
+        self.get_user_fn(name).is_some()
     }
 
     /// Get all registered function names.
@@ -496,8 +495,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_body(&self, name: &str) -> Option<&BodyFn> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id).and_then(|f| f.body.as_ref())
+        self.get_user_fn(name).and_then(|f| f.body.as_ref())
     }
 
     /// Get the body function for a user function by symbol ID.
@@ -511,9 +509,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_partial(&self, name: &str, arg_idx: usize) -> Option<&PartialFn> {
-        let id = symb_interned(name).id();
-        self.user_functions
-            .get(&id)
+        self.get_user_fn(name)
             .and_then(|f| f.partials.get(&arg_idx))
     }
 
-- 
2.43.0


From fb568968e69043d7568a1d75de46403b0711d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 31/40] fix: removing or clearing global names took the names
 of symbols that contexts and expressions still use

---
 src/core/symbol/registry.rs | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index d004390..23b0538 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -318,6 +318,8 @@ pub fn symb_builtin(name: &str) -> InternedSymbol {
 
 /// Remove a symbol from the global registry
 ///
+/// The name becomes free; the identity handed out for it stays valid in contexts and expressions.
+///
 /// Returns `true` if the symbol existed and was removed, `false` otherwise.
 /// Names of built-in functions and constants are not removed.
 ///
@@ -333,22 +335,16 @@ pub fn remove_symbol(name: &str) -> bool {
     if shard.builtins.contains(name) {
         return false;
     }
-    shard.name_to_symbol_key.remove(name).is_some_and(|key| {
+    let existed = shard.name_to_symbol_key.remove(name).is_some();
+    if existed {
         REMOVALS.fetch_add(1, Ordering::Release);
-        // Explicitly drop shard lock before taking id_data lock to avoid deadlocks
-        drop(shard);
-        REGISTRY
-            .id_to_data
-            .write()
-            .expect("Global ID registry poisoned")
-            .remove(key)
-            .is_some()
-    })
+    }
+    existed
 }
 
 /// Clear all symbols from the global registry
 ///
-/// Names of built-in functions and constants stay.
+/// Names of built-in functions and constants stay, and so do identities handed out before.
 ///
 /// # Panics
 ///
@@ -357,8 +353,6 @@ pub fn clear_symbols() {
     // Clear TLS cache first
     ID_CACHE.with(|cache| cache.borrow_mut().clear());
 
-    // Anonymous symbols and the symbols of contexts are not in any shard and stay
-    let mut removed = Vec::new();
     for shard_lock in &REGISTRY.shards {
         let mut shard = shard_lock
             .lock()
@@ -367,23 +361,9 @@ pub fn clear_symbols() {
             name_to_symbol_key,
             builtins,
         } = &mut *shard;
-        name_to_symbol_key.retain(|name, key| {
-            let keep = builtins.contains(name);
-            if !keep {
-                removed.push(*key);
-            }
-            keep
-        });
+        name_to_symbol_key.retain(|name, _| builtins.contains(name));
         REMOVALS.fetch_add(1, Ordering::Release);
     }
-
-    let mut id_data = REGISTRY
-        .id_to_data
-        .write()
-        .expect("Global ID registry poisoned");
-    for key in removed {
-        id_data.remove(key);
-    }
 }
 
 /// Lock every shard, in order, so that what is read is the content at one moment.
-- 
2.43.0


From 14317747f5bbf9b42ab0b4de8d4a0c2a9f84df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 32/40] fix: derivatives with respect to context or anonymous
 symbols were zero; user partials were ignored inside polynomials

---
 src/api/builder.rs | 24 ++++++++++++++++-----
 src/api/helpers.rs | 53 +++++++++++++++++++++-------------------------
 src/core/poly.rs   |  8 ++++---
 src/diff/engine.rs | 30 +++++++++++++++++---------
 4 files changed, 68 insertions(+), 47 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 4748aba..0af556f 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -16,6 +16,7 @@
 //! assert!(!format!("{}", derivative).is_empty());
 //! ```
 
+use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_interned};
 use crate::core::unified_context::{Context, UserFunction};
 use crate::evaluator::ToParamName;
 use crate::{DiffError, Expr, Symbol, parser, simplification};
@@ -125,8 +126,10 @@ impl Diff {
     /// - Expression depth exceeds `max_depth`
     /// - Expression node count exceeds `max_nodes`
     pub fn differentiate(&self, expr: &Expr, var: &Symbol) -> Result<Expr, DiffError> {
-        let var_name = var.name().unwrap_or_default();
-        self.differentiate_by_name(expr, &var_name)
+        let var = lookup_by_id(var.id()).ok_or_else(|| {
+            DiffError::UnsupportedOperation("unknown differentiation symbol".to_owned())
+        })?;
+        self.differentiate_interned(expr, &var)
     }
 
     /// Get custom function names for parsing
@@ -169,9 +172,20 @@ impl Diff {
 
     /// Differentiates an expression with respect to a variable by name.
     pub(crate) fn differentiate_by_name(&self, expr: &Expr, var: &str) -> Result<Expr, DiffError> {
-        if self.known_symbols.contains(var) {
+        self.differentiate_interned(expr, &symb_interned(var))
+    }
+
+    /// Differentiates an expression with respect to a symbol, identified by its ID.
+    fn differentiate_interned(
+        &self,
+        expr: &Expr,
+        var: &InternedSymbol,
+    ) -> Result<Expr, DiffError> {
+        if let Some(name) = var.name()
+            && self.known_symbols.contains(name)
+        {
             return Err(DiffError::VariableInBothFixedAndDiff {
-                var: var.to_owned(),
+                var: name.to_owned(),
             });
         }
 
@@ -187,7 +201,7 @@ impl Diff {
         }
 
         let context = self.build_context();
-        let derivative = expr.derive(var, Some(&context));
+        let derivative = expr.derive_symbol(var, &context);
 
         if self.skip_simplification {
             return Ok(derivative);
diff --git a/src/api/helpers.rs b/src/api/helpers.rs
index 0601b7b..2004887 100644
--- a/src/api/helpers.rs
+++ b/src/api/helpers.rs
@@ -4,6 +4,7 @@
 //! for both Expr-based and String-based APIs.
 
 use crate::{Diff, DiffError, Expr, Symbol, parser};
+use std::borrow::Borrow;
 use std::collections::HashSet;
 
 // ===== Internal Helpers =====
@@ -14,43 +15,43 @@ fn empty_context() -> (HashSet<String>, HashSet<String>) {
     (HashSet::new(), HashSet::new())
 }
 
-/// Helper to extract variable names from Symbol slices
+/// Helper to convert variable names to symbols
 #[inline]
-fn extract_var_names(vars: &[&Symbol]) -> Vec<String> {
-    vars.iter().filter_map(|s| s.name()).collect()
+fn symbols_of(vars: &[&str]) -> Vec<Symbol> {
+    vars.iter().map(|v| crate::symb(v)).collect()
 }
 
-/// Helper to convert variable names to &str slices
-#[inline]
-fn var_names_to_str_refs(var_names: &[String]) -> Vec<&str> {
-    var_names.iter().map(std::string::String::as_str).collect()
-}
-
-/// Internal gradient implementation using &str variable names
+/// Internal gradient implementation
 /// This is the core implementation - public APIs wrap this
-fn gradient_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Expr>, DiffError> {
+fn gradient_internal<S: Borrow<Symbol>>(expr: &Expr, vars: &[S]) -> Result<Vec<Expr>, DiffError> {
     let diff = Diff::new();
     vars.iter()
-        .map(|var| diff.differentiate_by_name(expr, var))
+        .map(|var| diff.differentiate(expr, var.borrow()))
         .collect()
 }
 
-/// Internal hessian implementation using &str variable names
-fn hessian_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
+/// Internal hessian implementation
+fn hessian_internal<S: Borrow<Symbol>>(
+    expr: &Expr,
+    vars: &[S],
+) -> Result<Vec<Vec<Expr>>, DiffError> {
     let diff = Diff::new();
     let grad = gradient_internal(expr, vars)?;
 
     grad.iter()
         .map(|partial| {
             vars.iter()
-                .map(|var| diff.differentiate_by_name(partial, var))
+                .map(|var| diff.differentiate(partial, var.borrow()))
                 .collect::<Result<Vec<_>, _>>()
         })
         .collect()
 }
 
-/// Internal jacobian implementation using &str variable names
-fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
+/// Internal jacobian implementation
+fn jacobian_internal<S: Borrow<Symbol>>(
+    exprs: &[Expr],
+    vars: &[S],
+) -> Result<Vec<Vec<Expr>>, DiffError> {
     exprs
         .iter()
         .map(|expr| gradient_internal(expr, vars))
@@ -75,9 +76,7 @@ fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, Di
 /// # Errors
 /// Returns `DiffError` if differentiation fails for any variable.
 pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    gradient_internal(expr, &var_refs)
+    gradient_internal(expr, vars)
 }
 
 /// Compute the Hessian matrix of an expression
@@ -98,9 +97,7 @@ pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
 /// # Errors
 /// Returns `DiffError` if any second partial derivative fails.
 pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    hessian_internal(expr, &var_refs)
+    hessian_internal(expr, vars)
 }
 
 /// Compute the Jacobian matrix of a vector of expressions
@@ -121,9 +118,7 @@ pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffErro
 /// # Errors
 /// Returns `DiffError` if any partial derivative fails.
 pub fn jacobian(exprs: &[Expr], vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names: Vec<String> = vars.iter().filter_map(|s| s.name()).collect();
-    let var_refs: Vec<&str> = var_names.iter().map(std::string::String::as_str).collect();
-    jacobian_internal(exprs, &var_refs)
+    jacobian_internal(exprs, vars)
 }
 
 // ===== String-based API =====
@@ -153,7 +148,7 @@ fn parse_formula(formula: &str) -> Result<Expr, DiffError> {
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn gradient_str(formula: &str, vars: &[&str]) -> Result<Vec<String>, DiffError> {
     let expr = parse_formula(formula)?;
-    let grad = gradient_internal(&expr, vars)?;
+    let grad = gradient_internal(&expr, &symbols_of(vars))?;
     Ok(grad.iter().map(std::string::ToString::to_string).collect())
 }
 
@@ -174,7 +169,7 @@ pub fn gradient_str(formula: &str, vars: &[&str]) -> Result<Vec<String>, DiffErr
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn hessian_str(formula: &str, vars: &[&str]) -> Result<Vec<Vec<String>>, DiffError> {
     let expr = parse_formula(formula)?;
-    let hess = hessian_internal(&expr, vars)?;
+    let hess = hessian_internal(&expr, &symbols_of(vars))?;
     Ok(hess
         .iter()
         .map(|row| row.iter().map(std::string::ToString::to_string).collect())
@@ -208,7 +203,7 @@ fn parse_formulas(formulas: &[&str]) -> Result<Vec<Expr>, DiffError> {
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn jacobian_str(formulas: &[&str], vars: &[&str]) -> Result<Vec<Vec<String>>, DiffError> {
     let exprs = parse_formulas(formulas)?;
-    let jac = jacobian_internal(&exprs, vars)?;
+    let jac = jacobian_internal(&exprs, &symbols_of(vars))?;
     Ok(jac
         .iter()
         .map(|row| row.iter().map(std::string::ToString::to_string).collect())
diff --git a/src/core/poly.rs b/src/core/poly.rs
index 7a45214..d4e6f4e 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -3,7 +3,9 @@
 //! Provides efficient polynomial operations with any expression as base.
 //! The base is stored once; terms are just (power, coefficient) pairs.
 
+use crate::core::symbol::InternedSymbol;
 use crate::core::traits::EPSILON;
+use crate::core::unified_context::Context;
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
 
@@ -642,15 +644,15 @@ impl Polynomial {
     }
 
     /// Differentiate with respect to a variable (chain rule)
-    pub fn derivative_expr(&self, diff_var: &str) -> Expr {
+    pub(crate) fn derivative_expr(&self, diff_var: &InternedSymbol, ctx: &Context) -> Expr {
         // Get polynomial derivative
         let poly_deriv = self.derivative();
         let poly_expr = poly_deriv.to_expr();
 
         // Check if base contains the differentiation variable
-        if self.base.contains_var(diff_var) {
+        if self.base.contains_var_id(diff_var.id()) {
             // Chain rule: d/dx[P(u)] = P'(u) * u'
-            let u_prime = self.base.derive_raw(diff_var);
+            let u_prime = self.base.derive_symbol(diff_var, ctx);
 
             if u_prime.is_zero_num() {
                 Expr::number(0.0)
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index bae3ee0..ea60de8 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -16,6 +16,7 @@
 //! The simplification engine then handles any remaining optimization opportunities.
 
 use crate::core::known_symbols as ks;
+use crate::core::symbol::InternedSymbol;
 use crate::core::unified_context::Context;
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
@@ -53,10 +54,19 @@ impl Expr {
         static EMPTY_CONTEXT: std::sync::OnceLock<Context> = std::sync::OnceLock::new();
         let ctx = context.unwrap_or_else(|| EMPTY_CONTEXT.get_or_init(Context::new));
 
-        // Intern the var name ONCE for O(1) UID comparisons throughout recursion
-        let var_id = crate::core::symbol::symb_interned(var).id();
+        // Resolve the var name ONCE for O(1) UID comparisons throughout recursion:
+        // the context's own symbol of that name if it has one, else the global one
+        let var = ctx
+            .get_symbol(var)
+            .and_then(|s| crate::core::symbol::lookup_by_id(s.id()))
+            .unwrap_or_else(|| crate::core::symbol::symb_interned(var));
 
-        self.derive_impl(var, var_id, ctx)
+        self.derive_symbol(&var, ctx)
+    }
+
+    /// Differentiate with respect to a given symbol (identified by its ID, whatever its name).
+    pub(crate) fn derive_symbol(&self, var: &InternedSymbol, ctx: &Context) -> Self {
+        self.derive_impl(var, var.id(), ctx)
     }
 
     /// Inner recursive implementation that carries pre-computed `var_id`
@@ -65,7 +75,7 @@ impl Expr {
         clippy::too_many_lines,
         reason = "Comprehensive differentiation logic handles many expression types"
     )]
-    fn derive_impl(&self, var: &str, var_id: u64, ctx: &Context) -> Self {
+    fn derive_impl(&self, var: &InternedSymbol, var_id: u64, ctx: &Context) -> Self {
         match &self.kind {
             // Base cases
             ExprKind::Number(_) => Self::number(0.0),
@@ -316,8 +326,8 @@ impl Expr {
             // - 1^x: case 2, ln(1)=0 creates 0 term, simplifier handles ✓
             // - x^0: n_minus_1 becomes -1, but final term is 0*u^(-1)*u'=0 via simplifier ✓
             ExprKind::Pow(u, v) => {
-                let u_contains_var = u.contains_var(var);
-                let v_contains_var = v.contains_var(var);
+                let u_contains_var = u.contains_var_id(var_id);
+                let v_contains_var = v.contains_var_id(var_id);
 
                 if !u_contains_var && !v_contains_var {
                     // Both constant
@@ -418,23 +428,23 @@ impl Expr {
             } => {
                 if deriv_var.id() == var_id {
                     Self::derivative_interned(inner.as_ref().clone(), deriv_var.clone(), order + 1)
-                } else if !inner.contains_var(var) {
+                } else if !inner.contains_var_id(var_id) {
                     Self::number(0.0)
                 } else {
-                    Self::derivative(
+                    Self::derivative_interned(
                         Self::new(ExprKind::Derivative {
                             inner: Arc::clone(inner),
                             var: deriv_var.clone(),
                             order: *order,
                         }),
-                        var,
+                        var.clone(),
                         1,
                     )
                 }
             }
 
             // Polynomial
-            ExprKind::Poly(poly) => poly.derivative_expr(var),
+            ExprKind::Poly(poly) => poly.derivative_expr(var, ctx),
         }
     }
 
-- 
2.43.0


From 15d741b642a0e6b346eabab06707ad699c7ca4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 33/40] fix: a depth limit also cut the simplifier's recursion
 and changed results of inputs within it

---
 src/api/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 0af556f..4d5fd9c 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -211,7 +211,7 @@ impl Diff {
             derivative,
             self.known_symbols.clone(),
             self.build_bodies_map(),
-            self.max_depth,
+            None,
             None,
             None,
             self.domain_safe,
@@ -408,7 +408,7 @@ impl Simplify {
             expr.clone(),
             self.known_symbols.clone(),
             self.build_bodies_map(),
-            self.max_depth,
+            None,
             None,
             None,
             self.domain_safe,
-- 
2.43.0


From 8122a023b93a21ac24d745372a231d13c87203e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 34/40] fix: evaluate_parallel bound anonymous and context
 variables by name and substituted expressions into one another

---
 src/bindings/parallel.rs | 60 +++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/bindings/parallel.rs b/src/bindings/parallel.rs
index 7e78a4d..cec6d7a 100644
--- a/src/bindings/parallel.rs
+++ b/src/bindings/parallel.rs
@@ -29,7 +29,7 @@
 //! # }
 //! ```
 
-use crate::{DiffError, Expr, parser};
+use crate::{DiffError, Expr, ExprKind, evaluator::ToParamName, parser};
 use rayon::prelude::*;
 use std::collections::HashMap;
 use std::collections::HashSet;
@@ -138,6 +138,17 @@ impl From<crate::Symbol> for VarInput {
     }
 }
 
+impl ToParamName for VarInput {
+    fn to_param_id_and_name(&self) -> (u64, String) {
+        let name = if self.name.is_empty() {
+            format!("${}", self.id)
+        } else {
+            self.name.to_string()
+        };
+        (self.id, name)
+    }
+}
+
 /// Value to substitute - number, expression, or skip
 #[derive(Debug, Clone)]
 pub enum Value {
@@ -363,7 +374,7 @@ pub(crate) fn evaluate_parallel_with_hint(
         .into_par_iter()
         .map(|expr_idx| {
             let (expr, was_string) = &parsed[expr_idx];
-            let vars: Vec<&str> = var_names[expr_idx].iter().map(VarInput::as_str).collect();
+            let vars: &[VarInput] = &var_names[expr_idx];
             let expr_values = &values[expr_idx];
 
             // Validate dimensions
@@ -408,7 +419,7 @@ pub(crate) fn evaluate_parallel_with_hint(
             // We ignore all_values_numeric check here - we'll check per-point
             // We also rely on compile() to check that all variables are bound
             let evaluator =
-                crate::evaluator::CompiledEvaluator::compile(expr, &vars, None).ok();
+                crate::evaluator::CompiledEvaluator::compile(expr, vars, None).ok();
 
             if let Some(evaluator) = evaluator {
                 // OPTIMIZATION: Use pre-computed hint if available, otherwise compute lazily
@@ -553,7 +564,7 @@ pub(crate) fn evaluate_parallel_with_hint(
                                 // SLOW PATH: Fallback for this point (symbolic inputs/skips)
                                 evaluate_slow_point(
                                     expr,
-                                    &vars,
+                                    vars,
                                     expr_values,
                                     point_idx,
                                     *was_string,
@@ -568,7 +579,7 @@ pub(crate) fn evaluate_parallel_with_hint(
                 let pts: Vec<EvalResult> = (0..n_points)
                     .into_par_iter()
                     .map(|point_idx| {
-                        evaluate_slow_point(expr, &vars, expr_values, point_idx, *was_string)
+                        evaluate_slow_point(expr, vars, expr_values, point_idx, *was_string)
                     })
                     .collect::<Result<Vec<_>, _>>()?;
                 Ok(pts)
@@ -582,14 +593,14 @@ pub(crate) fn evaluate_parallel_with_hint(
 /// Helper for slow path evaluation of a single point (extracted to avoid code duplication)
 fn evaluate_slow_point(
     expr: &Expr,
-    vars: &[&str],
+    vars: &[VarInput],
     var_values: &[Vec<Value>],
     point_idx: usize,
     was_string: bool,
 ) -> Result<EvalResult, DiffError> {
     let n_vars = vars.len();
-    let mut var_map: HashMap<&str, f64> = HashMap::new();
-    let mut expr_subs: Vec<(&str, &Expr)> = Vec::with_capacity(n_vars);
+    let mut var_map: HashMap<u64, f64> = HashMap::new();
+    let mut expr_subs: Vec<(u64, &Expr)> = Vec::with_capacity(n_vars);
 
     for var_idx in 0..n_vars {
         let val = if point_idx < var_values[var_idx].len() {
@@ -604,10 +615,10 @@ fn evaluate_slow_point(
 
         match val {
             Value::Num(n) => {
-                var_map.insert(vars[var_idx], *n);
+                var_map.insert(vars[var_idx].id(), *n);
             }
             Value::Expr(e) => {
-                expr_subs.push((vars[var_idx], e));
+                expr_subs.push((vars[var_idx].id(), e));
             }
             Value::Skip => {
                 // Keep symbolic
@@ -615,10 +626,25 @@ fn evaluate_slow_point(
         }
     }
 
-    // Apply expression substitutions
+    // Apply expression substitutions simultaneously: an expression mentioning a variable
+    // that is still to be substituted goes in last, through a fresh symbol, so that it is
+    // not itself substituted into.
     let mut result = expr.clone();
-    for (var, sub_expr) in expr_subs {
-        result = result.substitute(var, sub_expr);
+    let mut deferred: Vec<(u64, &Expr)> = Vec::new();
+    for (i, (var_id, sub_expr)) in expr_subs.iter().enumerate() {
+        let mentions_later = expr_subs[i + 1..]
+            .iter()
+            .any(|(later, _)| sub_expr.contains_var_id(*later));
+        if mentions_later {
+            let placeholder = crate::Symbol::anon();
+            deferred.push((placeholder.id(), *sub_expr));
+            result = substitute_id(&result, *var_id, &placeholder.to_expr());
+        } else {
+            result = substitute_id(&result, *var_id, sub_expr);
+        }
+    }
+    for (placeholder_id, sub_expr) in deferred {
+        result = substitute_id(&result, placeholder_id, sub_expr);
     }
 
     // Evaluate numerics
@@ -632,6 +658,14 @@ fn evaluate_slow_point(
     })
 }
 
+/// Replace the symbol with the given ID by an expression
+fn substitute_id(expr: &Expr, id: u64, replacement: &Expr) -> Expr {
+    expr.map(|node| match &node.kind {
+        ExprKind::Symbol(s) if s.id() == id => replacement.clone(),
+        _ => node.clone(),
+    })
+}
+
 /// Format a float for string output (helper for compiled evaluator results)
 fn format_float(n: f64) -> String {
     if n.fract() == 0.0 && n.abs() < 1e15 {
-- 
2.43.0


From 25aa6a4b7ac994acb4c55a0e5f75ecd0ae8c12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 35/40] fix: dual numbers lost negative bases in powf and the
 derivative of x^0 at zero

---
 src/math/dual.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 32827cf..0c6bf2c 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -401,15 +401,31 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powi(self, n: i32) -> Self {
-        let n_t = T::from(n).expect("T::from conversion failed");
         let val_pow = self.val.powi(n);
+        if n == 0 {
+            // x^0 is constant, also at x = 0 where x^(-1) is infinite
+            return Self::new(val_pow, T::zero());
+        }
+        let n_t = T::from(n).expect("T::from conversion failed");
         let val_pow_minus_1 = self.val.powi(n - 1);
         Self::new(val_pow, self.eps * n_t * val_pow_minus_1)
     }
 
     fn powf(self, n: Self) -> Self {
-        // x^y = exp(y * ln(x))
-        (n * self.ln()).exp()
+        // d(x^y) = y * x^(y-1) * dx + ln(x) * x^y * dy, where a part that does not vary
+        // contributes nothing (ln(x) is undefined for a negative base, x^y need not be)
+        let val_pow = self.val.powf(n.val);
+        let from_base = if self.eps.is_zero() || n.val.is_zero() {
+            T::zero()
+        } else {
+            self.eps * n.val * self.val.powf(n.val - T::one())
+        };
+        let from_exponent = if n.eps.is_zero() {
+            T::zero()
+        } else {
+            n.eps * self.val.ln() * val_pow
+        };
+        Self::new(val_pow, from_base + from_exponent)
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0


From 4f5ef9ca0cb5a0aa37c5ce02cd7b1fd007405a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 36/40] fix: propagated uncertainty came out negative where
 sqrt(u^2) was reduced to u

---
 src/uncertainty.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncertainty.rs b/src/uncertainty.rs
index 23710ce..5e298b8 100644
--- a/src/uncertainty.rs
+++ b/src/uncertainty.rs
@@ -14,7 +14,7 @@
 
 use crate::core::known_symbols as ks;
 use crate::core::traits::EPSILON;
-use crate::{Diff, DiffError, Expr};
+use crate::{Diff, DiffError, Expr, Simplify};
 #[cfg(feature = "parallel")]
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 
@@ -284,7 +284,8 @@ pub fn uncertainty_propagation(
     let simplified_variance = variance.simplified()?;
     let std_dev = Expr::func_symbol(ks::get_symbol(ks::KS.sqrt), simplified_variance);
 
-    std_dev.simplified()
+    // Domain-safe: sqrt(u^2) has to stay |u|, a standard deviation is never negative
+    Simplify::new().domain_safe(true).simplify(&std_dev)
 }
 
 /// Compute relative uncertainty expression: `σ_f` / |f|
-- 
2.43.0


From 92f9c96830c74e40404fabeaaacdc73e7add9a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 37/40] fix: polynomial division looped forever or for billions
 of steps, and degrees beyond u32 wrapped or panicked

---
 src/core/expr/constructors.rs                   |  6 +++---
 src/core/poly.rs                                | 15 +++++++++++----
 src/simplification/rules/algebraic/factoring.rs |  8 ++++++++
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 294c073..5570f1b 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -452,12 +452,12 @@ impl Expr {
 
         // Fast path: Poly * Poly with same base uses polynomial multiplication
         if let (ExprKind::Poly(p1), ExprKind::Poly(p2)) = (&left.kind, &right.kind) {
-            // Only use polynomial mul if bases match
-            if p1.base() == p2.base() {
+            // Only use polynomial mul if bases match and the degree stays in range
+            if p1.base() == p2.base() && p1.degree().checked_add(p2.degree()).is_some() {
                 let result = p1.mul(p2);
                 return Self::poly(result);
             }
-            // Different bases: fall through to Product
+            // Otherwise: fall through to Product
         }
 
         Self::product(vec![left, right])
diff --git a/src/core/poly.rs b/src/core/poly.rs
index d4e6f4e..bdd1a10 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -453,12 +453,16 @@ impl Polynomial {
             }
 
             let q_coeff = remainder.leading_coeff() / div_lc;
+            if !q_coeff.is_finite() {
+                return None;
+            }
             let q_pow = rem_deg - div_deg;
 
             quotient.add_term(q_pow, q_coeff);
 
-            // remainder -= q_term * other
-            for &(p, c) in &other.terms {
+            // remainder -= q_term * other; the leading term goes exactly, whatever the rounding
+            remainder.terms.pop();
+            for &(p, c) in other.terms.iter().rev().skip(1) {
                 remainder.add_term(p + q_pow, -q_coeff * c);
             }
         }
@@ -544,6 +548,7 @@ impl Polynomial {
             ExprKind::Pow(base_expr, exp) => {
                 if let ExprKind::Number(n) = &exp.kind
                     && *n >= 0.0
+                    && *n <= f64::from(u32::MAX)
                     && n.fract().abs() < EPSILON
                 {
                     // Exponent n >= 0 is already validated
@@ -594,11 +599,13 @@ impl Polynomial {
 
         // Same base: normal multiply
         // Arc::ptr_eq provides O(1) short-circuit for squaring (p.mul(&p)) and cloned polynomials
-        if Arc::ptr_eq(&a.base, &b.base) || a.base == b.base {
+        if (Arc::ptr_eq(&a.base, &b.base) || a.base == b.base)
+            && a.degree().checked_add(b.degree()).is_some()
+        {
             return Some(a.mul(b));
         }
 
-        // Different bases: cannot combine as single polynomial
+        // Different bases, or a degree out of range: cannot combine as single polynomial
         None
     }
 
diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index 97ecebb..440cf84 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -1156,6 +1156,9 @@ rule_arc!(
 // POLYNOMIAL GCD SIMPLIFICATION RULE
 // =============================================================================
 
+/// Highest degree for which the polynomial GCD is attempted
+const MAX_GCD_DEGREE: u32 = 20_000;
+
 /// Rule for simplifying fractions using polynomial GCD
 /// Handles cases like (x²-1)/(x-1) → x+1
 pub struct PolyGcdSimplifyRule;
@@ -1189,6 +1192,11 @@ impl Rule for PolyGcdSimplifyRule {
                 return None;
             }
 
+            // Division steps and quotient terms can be as many as the degree
+            if num_poly.degree().max(den_poly.degree()) > MAX_GCD_DEGREE {
+                return None;
+            }
+
             // Compute GCD
             let gcd = num_poly.gcd(&den_poly)?;
 
-- 
2.43.0


From 5ba7653e2575c91cdcc9dfc29b77cc32af551480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 38/40] fix: a context's functions stopped working once their
 global name was removed

---
 src/api/builder.rs                      | 14 ++++++--------
 src/core/unified_context.rs             | 18 +++++++++++++++---
 src/diff/engine.rs                      |  2 +-
 src/evaluator/compiler.rs               |  4 +---
 src/evaluator/mod.rs                    |  2 +-
 src/simplification/engine.rs            |  2 +-
 src/simplification/mod.rs               |  8 ++++----
 src/simplification/rules/mod.rs         |  4 ++--
 src/simplification/rules/numeric/mod.rs |  4 ++--
 9 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 4d5fd9c..9255ec7 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -142,10 +142,9 @@ impl Diff {
         self.user_fns
             .iter()
             .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
+                func.body
+                    .as_ref()
+                    .map(|body| (name.clone(), Arc::clone(body)))
             })
             .collect()
     }
@@ -378,10 +377,9 @@ impl Simplify {
         self.user_fns
             .iter()
             .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
+                func.body
+                    .as_ref()
+                    .map(|body| (name.clone(), Arc::clone(body)))
             })
             .collect()
     }
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index d0159a5..ca49b2e 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -431,6 +431,7 @@ impl Context {
     #[must_use]
     pub fn with_function(mut self, name: &str, func: UserFunction) -> Self {
         let id = symb_interned(name).id();
+        self.remove_function(name);
         self.user_functions.insert(id, func);
         self.fn_name_to_id.insert(name.to_owned(), id);
         self
@@ -442,10 +443,11 @@ impl Context {
     /// an evaluation or derivative definition.
     #[must_use]
     pub fn with_function_name(mut self, name: &str) -> Self {
-        let id = symb_interned(name).id();
-        if let std::collections::hash_map::Entry::Vacant(e) = self.user_functions.entry(id) {
+        if !self.has_function(name) {
+            let id = symb_interned(name).id();
             // Create a placeholder with default arity (any number of args)
-            e.insert(UserFunction::new(0..=usize::MAX));
+            self.user_functions
+                .insert(id, UserFunction::new(0..=usize::MAX));
             self.fn_name_to_id.insert(name.to_owned(), id);
         }
         self
@@ -520,6 +522,16 @@ impl Context {
         self.user_functions.get(&id)
     }
 
+    /// The user function a call of `symbol` means.
+    ///
+    /// Found by name when the identity is another one: the name may have been removed from the
+    /// global registry, and registered again, since the function was defined.
+    pub(crate) fn user_fn_called(&self, symbol: &InternedSymbol) -> Option<&UserFunction> {
+        self.user_functions
+            .get(&symbol.id())
+            .or_else(|| self.get_user_fn(symbol.name()?))
+    }
+
     /// Check if context has any user-defined functions with bodies that could be expanded.
     #[inline]
     #[must_use]
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index ea60de8..7de9257 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -119,7 +119,7 @@ impl Expr {
                 }
 
                 // Check for user-defined function partials in context
-                if let Some(user_fn) = ctx.get_user_fn_by_id(name.id()) {
+                if let Some(user_fn) = ctx.user_fn_called(name) {
                     // Multi-arg chain rule: dF/dx = Σ (∂F/∂arg[i]) * (darg[i]/dx)
                     let mut terms = Vec::new();
 
diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index d079bc2..2471319 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1496,9 +1496,7 @@ impl<'ctx> Compiler<'ctx> {
         let name_str = func_name.as_str();
         // Check if function exists in the context
         if let Some(ctx) = self.function_context {
-            let id = func_name.id();
-
-            if let Some(user_fn) = ctx.get_user_fn_by_id(id) {
+            if let Some(user_fn) = ctx.user_fn_called(func_name) {
                 if user_fn.arity.contains(&arity) {
                     // User function exists but has no symbolic body,
                     // so we can't evaluate it numerically.
diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 2c03399..a56a506 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -969,7 +969,7 @@ impl CompiledEvaluator {
 
                 // Check for recursion and if this is a user function with a body
                 if !expanding.contains(&fn_id)
-                    && let Some(user_fn) = ctx.get_user_fn_by_id(fn_id)
+                    && let Some(user_fn) = ctx.user_fn_called(name)
                     && user_fn.accepts_arity(expanded_args.len())
                     && let Some(body_fn) = &user_fn.body
                 {
diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index acfa1a4..1b7ada2 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -200,7 +200,7 @@ impl Simplifier {
     /// Sets custom function bodies.
     pub fn with_custom_bodies(
         mut self,
-        custom_bodies: HashMap<u64, crate::core::unified_context::BodyFn>,
+        custom_bodies: HashMap<String, crate::core::unified_context::BodyFn>,
     ) -> Self {
         self.context = self.context.with_custom_bodies(custom_bodies);
         self
diff --git a/src/simplification/mod.rs b/src/simplification/mod.rs
index a69111b..f8efc05 100644
--- a/src/simplification/mod.rs
+++ b/src/simplification/mod.rs
@@ -11,7 +11,7 @@ use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
 /// Type alias for custom body function map (symbolic expansion)
-pub type CustomBodyMap = HashMap<u64, BodyFn>;
+pub type CustomBodyMap = HashMap<String, BodyFn>;
 
 /// Simplify an expression with user-specified options
 ///
@@ -37,9 +37,9 @@ pub fn simplify_expr(
     if let Some(ctx) = context {
         // Context symbols are parsing hints, not simplification constants
         // But we still merge function bodies
-        for id in ctx.fn_name_to_id().values() {
-            if let Some(body) = ctx.get_body_by_id(*id) {
-                custom_bodies.insert(*id, Arc::clone(body));
+        for name in ctx.fn_name_to_id().keys() {
+            if let Some(body) = ctx.get_body(name) {
+                custom_bodies.insert(name.clone(), Arc::clone(body));
             }
         }
     }
diff --git a/src/simplification/rules/mod.rs b/src/simplification/rules/mod.rs
index 8779b88..9c94c26 100644
--- a/src/simplification/rules/mod.rs
+++ b/src/simplification/rules/mod.rs
@@ -454,7 +454,7 @@ pub struct RuleContext {
     /// Whether to apply only domain-safe transformations
     pub domain_safe: bool,
     /// Custom function body definitions
-    pub custom_bodies: Arc<HashMap<u64, BodyFn>>,
+    pub custom_bodies: Arc<HashMap<String, BodyFn>>,
 }
 
 impl std::fmt::Debug for RuleContext {
@@ -478,7 +478,7 @@ impl RuleContext {
     }
 
     /// Sets the custom function bodies for this context.
-    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, BodyFn>) -> Self {
+    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<String, BodyFn>) -> Self {
         self.custom_bodies = Arc::new(custom_bodies);
         self
     }
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 387b323..61f63b8 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -556,7 +556,7 @@ rule!(
                     numeric_args.push(*n);
                 } else {
                     // Not all numeric - check if we have a body to expand symbolically
-                    if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+                    if let Some(body_fn) = context.custom_bodies.get(name.as_str()) {
                         // Expand the function body with the given arguments
                         return Some(body_fn(args));
                     }
@@ -585,7 +585,7 @@ rule!(
             }
 
             // Fallback: check custom_bodies in context and expand symbolically
-            if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+            if let Some(body_fn) = context.custom_bodies.get(name.as_str()) {
                 // Expand the function body with the given arguments
                 return Some(body_fn(args));
             }
-- 
2.43.0


From b950ead88ecba657436974fc5754e56932d9e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 39/40] fix: compiling with a context did not accept its
 symbols by name

---
 src/evaluator/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index a56a506..7b0249f 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -220,7 +220,10 @@ impl CompiledEvaluator {
             .iter()
             .map(ToParamName::to_param_id_and_name)
             .collect();
-        let (param_ids, param_names): (Vec<u64>, Vec<String>) = params.into_iter().unzip();
+        let (mut param_ids, param_names): (Vec<u64>, Vec<String>) = params.into_iter().unzip();
+        if let Some(ctx) = context {
+            Self::use_context_symbols(expr, ctx, &mut param_ids, &param_names);
+        }
 
         // Expand user function calls with their body expressions
         let expanded_expr = context.map_or_else(
@@ -255,6 +258,19 @@ impl CompiledEvaluator {
         })
     }
 
+    /// Parameters that `expr` only mentions as symbols of the context mean those symbols.
+    fn use_context_symbols(expr: &Expr, ctx: &Context, ids: &mut [u64], names: &[String]) {
+        for i in 0..ids.len() {
+            if !expr.contains_var_id(ids[i])
+                && let Some(symbol) = ctx.get_symbol(&names[i])
+                && !ids.contains(&symbol.id())
+                && expr.contains_var_id(symbol.id())
+            {
+                ids[i] = symbol.id();
+            }
+        }
+    }
+
     /// Compile an expression, automatically determining parameter order from variables.
     ///
     /// Variables are sorted alphabetically for consistent ordering.
-- 
2.43.0


From 21a9520dfffbe6f9e1400d26a14c66e5ab7f180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 40/40] fix: eval_f64 did not compare the lengths of long
 columns

---
 src/bindings/eval_f64.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bindings/eval_f64.rs b/src/bindings/eval_f64.rs
index 213ca6a..6dc5d8d 100644
--- a/src/bindings/eval_f64.rs
+++ b/src/bindings/eval_f64.rs
@@ -82,6 +82,9 @@ pub fn run_chunked_evaluator(
             "Output buffer length must match data column length",
         ));
     }
+    if columns.iter().any(|c| c.len() != n_points) {
+        return Err(DiffError::EvalColumnLengthMismatch);
+    }
 
     if n_points < CHUNK_SIZE {
         evaluator.eval_batch(columns, output, None)?;
-- 
2.43.0

