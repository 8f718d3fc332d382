From 02c95b9ad4ca0d2f54c57ff1ed285bd82d858d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 01/14] fix: keep integer text above 2^53 exact in operands

---
 intl_pluralrules/src/operands.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 102ae87..a2b0fb1 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -103,7 +103,8 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
                 u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
         } else {
-            integer_digits = absolute_value as u64;
+            // An f64 can't represent every u64, so only fall back to it for other notations.
+            integer_digits = u64::from_str(abs_str).unwrap_or(absolute_value as u64);
             num_fraction_digits0 = 0;
             num_fraction_digits = 0;
             fraction_digits0 = 0;
-- 
2.43.0


From d17f5390fe98da47dd3bbfe6df2667a96e112964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 02/14] fix: refuse infinities, NaN and repeated minus signs as
 operands

---
 intl_pluralrules/src/operands.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index a2b0fb1..c0bb4e1 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -81,6 +81,9 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
         };
 
         let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
+        if !absolute_value.is_finite() || absolute_value.is_sign_negative() {
+            return Err("Incorrect number passed!");
+        }
 
         let integer_digits;
         let num_fraction_digits0;
-- 
2.43.0


From b2d6d142807299f9031d516f693480791e049fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 03/14] fix: refuse exponent notation that denotes a fraction

---
 intl_pluralrules/src/operands.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index c0bb4e1..dfbd3a1 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -105,6 +105,9 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
             fraction_digits0 =
                 u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
+        } else if absolute_value.fract() != 0.0 {
+            // Scientific notation like "15e-1" doesn't say which fraction digits are visible.
+            return Err("Could not convert string to integer!");
         } else {
             // An f64 can't represent every u64, so only fall back to it for other notations.
             integer_digits = u64::from_str(abs_str).unwrap_or(absolute_value as u64);
-- 
2.43.0


From e0126936abfd476ae1d5987252c4dd34ca6bddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 04/14] fix: parse the samples of a rule without a condition
 instead of dropping them

---
 cldr_pluralrules_parser/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 324708f..cff1ec5 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -148,11 +148,11 @@ fn samples(i: &str) -> IResult<&str, Option<Samples>> {
     map(
         tuple((
             opt(preceded(
-                tuple((space1, tag("@integer"), space1)),
+                tuple((space0, tag("@integer"), space1)),
                 sample_list,
             )),
             opt(preceded(
-                tuple((space1, tag("@decimal"), space1)),
+                tuple((space0, tag("@decimal"), space1)),
                 sample_list,
             )),
         )),
@@ -179,7 +179,7 @@ pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
     }
 
     if i.trim().starts_with("@") {
-        return IResult::Ok(("", Condition(vec![])));
+        return IResult::Ok((i.trim_start(), Condition(vec![])));
     }
     map(
         separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
-- 
2.43.0


From 7265d0af06064444c881f22f67c121809d9de8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 05/14] fix: reject a relation with an empty range list

---
 cldr_pluralrules_parser/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index cff1ec5..6ae3ea1 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{digit1, one_of, space0, space1},
     combinator::{map, map_res, opt},
-    multi::{separated_list, separated_nonempty_list},
+    multi::separated_nonempty_list,
     sequence::{preceded, separated_pair, tuple},
     IResult,
 };
@@ -33,7 +33,7 @@ fn range_list_item(i: &str) -> IResult<&str, RangeListItem> {
 
 fn range_list(i: &str) -> IResult<&str, RangeList> {
     map(
-        separated_list(tuple((space0, tag(","), space0)), range_list_item),
+        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
         RangeList,
     )(i)
 }
-- 
2.43.0


From e9edf97037e65ff52a97e56aa00dac45a591863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 06/14] fix: allow white space around every token of a rule

---
 cldr_pluralrules_parser/src/lib.rs    | 4 ++--
 cldr_pluralrules_parser/src/parser.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cldr_pluralrules_parser/src/lib.rs b/cldr_pluralrules_parser/src/lib.rs
index c75f236..d931b11 100644
--- a/cldr_pluralrules_parser/src/lib.rs
+++ b/cldr_pluralrules_parser/src/lib.rs
@@ -77,7 +77,7 @@ mod parser;
 /// )
 /// ```
 pub fn parse_plural_rule<S: AsRef<str>>(source: S) -> Result<ast::Rule, String> {
-    match parser::parse_rule(source.as_ref()) {
+    match parser::parse_rule(source.as_ref().trim()) {
         Ok(("", rule)) => Ok(rule),
         //Ok((_, rule)) => Ok(rule),
         Ok((left, _)) => Err(format!("Left string: {}", left)),
@@ -86,7 +86,7 @@ pub fn parse_plural_rule<S: AsRef<str>>(source: S) -> Result<ast::Rule, String>
 }
 
 pub fn parse_plural_condition<S: AsRef<str>>(source: S) -> Result<ast::Condition, String> {
-    match parser::parse_condition(source.as_ref()) {
+    match parser::parse_condition(source.as_ref().trim()) {
         Ok((_, rule)) => Ok(rule),
         _ => Err("Parser failed".to_string()),
     }
diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 6ae3ea1..56a019a 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -16,7 +16,7 @@ fn value(i: &str) -> IResult<&str, Value> {
 
 fn range(i: &str) -> IResult<&str, Range> {
     map(
-        separated_pair(value, tag(".."), value),
+        separated_pair(value, tuple((space0, tag(".."), space0)), value),
         |(lower_val, upper_val)| Range {
             lower_val,
             upper_val,
@@ -52,7 +52,7 @@ fn operand(i: &str) -> IResult<&str, Operand> {
 
 fn mod_expression(i: &str) -> IResult<&str, Option<Modulo>> {
     opt(map(
-        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space1)), value),
+        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space0)), value),
         Modulo,
     ))(i)
 }
-- 
2.43.0


From 1556a2add21e4514f9bc540be74c95a5c3181f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 07/14] fix: report text left over after a condition

---
 cldr_pluralrules_parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cldr_pluralrules_parser/src/lib.rs b/cldr_pluralrules_parser/src/lib.rs
index d931b11..ba90af2 100644
--- a/cldr_pluralrules_parser/src/lib.rs
+++ b/cldr_pluralrules_parser/src/lib.rs
@@ -87,7 +87,8 @@ pub fn parse_plural_rule<S: AsRef<str>>(source: S) -> Result<ast::Rule, String>
 
 pub fn parse_plural_condition<S: AsRef<str>>(source: S) -> Result<ast::Condition, String> {
     match parser::parse_condition(source.as_ref().trim()) {
-        Ok((_, rule)) => Ok(rule),
+        Ok((left, rule)) if left.is_empty() || left.trim_start().starts_with('@') => Ok(rule),
+        Ok((left, _)) => Err(format!("Left string: {}", left)),
         _ => Err("Parser failed".to_string()),
     }
 }
-- 
2.43.0


From 5373838bf7e93e6f4f251a798bbfbf4dd8ad78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:36 +0000
Subject: [PATCH 08/14] fix: take the modulus of the operand itself in a within
 relation

---
 make_pluralrules/src/parser/gen_pr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index c31936f..9c36312 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -101,7 +101,7 @@ fn create_relation(rel: Relation) -> TokenStream {
                 if !mod_check {
                     quote!(po.#l)
                 } else {
-                    quote!(po.i % #m)
+                    quote!(po.#l % #m)
                 },
             )
         };
-- 
2.43.0


From 73dda28fd791935762b29fd28cb73df4b0e4a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:36 +0000
Subject: [PATCH 09/14] fix: generate every value and range of a within
 relation

---
 make_pluralrules/src/parser/gen_pr.rs | 47 ++++++++++++++-------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index 9c36312..294d580 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -84,30 +84,31 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // If within type operator, use format x < po && po < y
     if operator == Operator::Within || operator == Operator::NotWithin {
-        let rfront = &(r1.1)[0].0;
-        let rback = &(r1.1)[0].1;
-
-        // Variants handled here
-        let (rfront, rback, whole_symbol) = if left.operand == Operand::N {
-            if !mod_check {
-                (quote!(#rfront.0), quote!(#rback.0), quote!(po.#l))
-            } else {
-                (quote!(#rfront), quote!(#rback), quote!(po.i % #m))
-            }
-        } else {
-            (
-                quote!(#rfront),
-                quote!(#rback),
+        // A single value is a range of itself
+        let values = r1.0.into_iter().map(|r| (r.clone(), r));
+        for (rfront, rback) in r1.1.into_iter().chain(values) {
+            // Variants handled here
+            let (rfront, rback, whole_symbol) = if left.operand == Operand::N {
                 if !mod_check {
-                    quote!(po.#l)
+                    (quote!(#rfront.0), quote!(#rback.0), quote!(po.#l))
                 } else {
-                    quote!(po.#l % #m)
-                },
-            )
-        };
+                    (quote!(#rfront), quote!(#rback), quote!(po.i % #m))
+                }
+            } else {
+                (
+                    quote!(#rfront),
+                    quote!(#rback),
+                    if !mod_check {
+                        quote!(po.#l)
+                    } else {
+                        quote!(po.#l % #m)
+                    },
+                )
+            };
 
-        let rel_tokens = quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback};
-        relations.push(rel_tokens);
+            let rel_tokens = quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback};
+            relations.push(rel_tokens);
+        }
     // if not within type, use format po < x
     } else {
         // Recurisvely fold all values
@@ -173,7 +174,7 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // Unfold all expressions from folded expressions
     match operator {
-        Operator::In | Operator::Is | Operator::EQ => {
+        Operator::In | Operator::Is | Operator::EQ | Operator::Within => {
             if relations.len() > 1 {
                 quote! { ( #(#relations)||* ) }
             } else {
@@ -181,7 +182,7 @@ fn create_relation(rel: Relation) -> TokenStream {
             }
         }
         Operator::NotIn | Operator::NotEQ | Operator::IsNot => quote! { #(#relations)&&* },
-        Operator::Within | Operator::NotWithin => quote! { #(#relations)||* },
+        Operator::NotWithin => quote! { #(#relations)&&* },
     }
 }
 
-- 
2.43.0


From f13cfc5c2200758f5a0b9da897d24a9148d0e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:36 +0000
Subject: [PATCH 10/14] fix: refuse rule text that is only partly understood

---
 make_pluralrules/src/lib.rs           | 8 +++++---
 make_pluralrules/src/parser/gen_pr.rs | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index d233385..c0a9100 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -88,9 +88,11 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
             // cat_name is the simplified category name from the CLDR source file
             let cat_name = rule_name.split('-').collect::<Vec<_>>()[2];
 
-            // representation is the
-            let representation = cldr_pluralrules_parser::parse_plural_condition(rule_line)
-                .expect("Parsing of a condition succeeded");
+            // representation is the AST of the condition, which is all text before the samples
+            let condition = rule_line.split('@').next().unwrap_or("").trim_end();
+            let representation = cldr_pluralrules_parser::parse_plural_rule(condition)
+                .expect("Parsing of a condition succeeded")
+                .condition;
 
             let cat = if cat_name == "zero" {
                 PluralCategory::ZERO
diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index 294d580..3d7523d 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -65,6 +65,9 @@ fn create_relation(rel: Relation) -> TokenStream {
     };
     let l = Ident::new(l, Span::call_site());
     let o = get_operator_symbol(&operator);
+    if right.0.is_empty() {
+        panic!("A relation has no values.");
+    }
     let r1 = convert_rangl(right);
 
     // If there is a modulus, convert to literal. If not, placehold literal
-- 
2.43.0


From 37b7ff81bd4789cf539c8499e914ca9d506ebd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:35 +0000
Subject: [PATCH 11/14] fix: refuse integers that do not fit 64 bits instead of
 saturating

---
 intl_pluralrules/src/operands.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index dfbd3a1..7faa9c9 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -110,7 +110,11 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
             return Err("Could not convert string to integer!");
         } else {
             // An f64 can't represent every u64, so only fall back to it for other notations.
-            integer_digits = u64::from_str(abs_str).unwrap_or(absolute_value as u64);
+            integer_digits = match u64::from_str(abs_str) {
+                Ok(digits) => digits,
+                Err(_) if absolute_value < u64::MAX as f64 => absolute_value as u64,
+                Err(_) => return Err("Number too big"),
+            };
             num_fraction_digits0 = 0;
             num_fraction_digits = 0;
             fraction_digits0 = 0;
-- 
2.43.0


From b06902ea7869d9fbf0e1cb102b67c326d0017ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:18 +0000
Subject: [PATCH 12/14] fix: refuse a relation without values in a rule for
 OTHER as well

---
 make_pluralrules/src/lib.rs           | 4 ++++
 make_pluralrules/src/parser/gen_pr.rs | 3 ---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index c0a9100..a850986 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -93,6 +93,10 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
             let representation = cldr_pluralrules_parser::parse_plural_rule(condition)
                 .expect("Parsing of a condition succeeded")
                 .condition;
+            let mut relations = representation.0.iter().flat_map(|and| and.0.iter());
+            if relations.any(|relation| relation.range_list.0.is_empty()) {
+                panic!("A relation has no values.");
+            }
 
             let cat = if cat_name == "zero" {
                 PluralCategory::ZERO
diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index 3d7523d..294d580 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -65,9 +65,6 @@ fn create_relation(rel: Relation) -> TokenStream {
     };
     let l = Ident::new(l, Span::call_site());
     let o = get_operator_symbol(&operator);
-    if right.0.is_empty() {
-        panic!("A relation has no values.");
-    }
     let r1 = convert_rangl(right);
 
     // If there is a modulus, convert to literal. If not, placehold literal
-- 
2.43.0


From f5c880592663e991e6ed4ff55bbbbb534e81b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:29 +0000
Subject: [PATCH 13/14] fix: report when rustfmt fails to format the output

---
 make_pluralrules/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/main.rs b/make_pluralrules/src/main.rs
index f8641a1..92f3ed9 100644
--- a/make_pluralrules/src/main.rs
+++ b/make_pluralrules/src/main.rs
@@ -29,10 +29,13 @@ fn main() -> std::io::Result<()> {
     file.write_all(complete_rs_code.as_bytes())?;
 
     if !matches.is_present("ugly") {
-        Command::new("rustfmt")
+        let formatted = Command::new("rustfmt")
             .args(&[output_path])
             .output()
             .expect("Failed to format the output using `rustfmt`");
+        if !formatted.status.success() {
+            panic!("Failed to format the output using `rustfmt`");
+        }
     }
 
     Ok(())
-- 
2.43.0


From 53970f248a6a2c2bf01eb9b893a613606accd4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:29 +0000
Subject: [PATCH 14/14] fix: refuse negative CLDR versions instead of wrapping
 them

---
 make_pluralrules/src/parser/gen_rs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/make_pluralrules/src/parser/gen_rs.rs b/make_pluralrules/src/parser/gen_rs.rs
index 66c6f6a..95625d9 100644
--- a/make_pluralrules/src/parser/gen_rs.rs
+++ b/make_pluralrules/src/parser/gen_rs.rs
@@ -37,8 +37,8 @@ pub fn gen_fn(streams: BTreeMap<String, Vec<TokenStream>>, vr: &str) -> TokenStr
         }
     };
     let plural_function = quote! { pub type PluralRule = fn(&PluralOperands) -> PluralCategory; };
-    let num: isize = vr.parse().unwrap();
-    let ver = Literal::u64_unsuffixed(num as u64);
+    let num: u64 = vr.parse().unwrap();
+    let ver = Literal::u64_unsuffixed(num);
     let version = quote! { pub static CLDR_VERSION: usize = #ver; };
     let head = quote! { #ignore_noncritical_errors #use_statements #plural_function #version #langid_macro };
     let mut tokens = Vec::<TokenStream>::new();
-- 
2.43.0

