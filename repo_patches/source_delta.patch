From df2aec8aabf07329ca77bb40acb97bd7ff1e25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 1/7] fix: accept whitespace and comments after an opening '('
 or '['

Layout is free between all other tokens, but `( <a> | <b> )` was a parse error.
---
 src/parsers/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 367c507..0d1c18e 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -303,7 +303,7 @@ fn parsed_expression_next<F: Format>(input: &str) -> IResult<&str, &str> {
 
 fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('('),
+        terminated(complete::char('('), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(')'),
     )
@@ -316,7 +316,7 @@ fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
 
 fn parsed_optional_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('['),
+        terminated(complete::char('['), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(']'),
     )
-- 
2.43.0


From 196c718612334d40e4809c6b48937859b8ec2570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 2/7] fix: generated names no longer capture a user's undefined
 nonterminal

`<s> ::= (<__anon0>)` was normalized to `<__anon0> ::= <__anon0>`, which made the
undefined reference pass validation.
---
 src/parsers/mod.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 0d1c18e..1bde941 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -396,19 +396,38 @@ fn parsed_grammar_complete<F: Format>(input: &str) -> IResult<&str, ParsedGramma
 
 /// Normalize a parsed grammar (with `Group` and `Optional`) into a `Grammar` that uses only
 /// `Term::Terminal` and `Term::Nonterminal`. Anonymous names (`__anon0`, `__anon1`, …) are chosen
-/// so they do not clash with any existing LHS nonterminal (e.g. user-defined `<__anon0>`).
+/// so they do not clash with any nonterminal of the text (e.g. user-defined `<__anon0>`).
 /// Optionals `[A / B]` are lowered to a fresh nonterminal with alternatives `A | B | ''`.
 fn normalize_parsed_grammar(parsed: ParsedGrammar) -> Grammar {
     let mut used_names = crate::HashSet::new();
     for prod in &parsed.productions {
-        let ParsedProduction::Complex { lhs, .. } = prod;
+        let ParsedProduction::Complex { lhs, rhs } = prod;
         used_names.insert(lhs.clone());
+        collect_referenced_names(rhs, &mut used_names);
     }
 
     let mut out_prods = Vec::new();
     let mut anon_prods = Vec::new();
 
-    /// Pick a fresh name that does not collide with user-defined LHS or other generated names.
+    /// Collect every nonterminal name the user refers to, so that a reference without a
+    /// definition is not captured by a generated name.
+    fn collect_referenced_names(exprs: &[ParsedExpression], used: &mut crate::HashSet<String>) {
+        for ParsedExpression::Terms(terms) in exprs {
+            for term in terms {
+                match term {
+                    ParsedTerm::Simple(Term::Nonterminal(name)) => {
+                        used.insert(name.clone());
+                    }
+                    ParsedTerm::Simple(Term::Terminal(_)) => {}
+                    ParsedTerm::Group(exprs) | ParsedTerm::Optional(exprs) => {
+                        collect_referenced_names(exprs, used);
+                    }
+                }
+            }
+        }
+    }
+
+    /// Pick a fresh name that does not collide with user-written or other generated names.
     fn fresh_anon_name(used: &mut crate::HashSet<String>, counter: &mut usize) -> String {
         loop {
             let candidate = format!("__anon{}", counter);
-- 
2.43.0


From c7736e446e64ea7d59c2c95959c92c6ad71c0cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 3/7] fix: grammar! and production! keep the written order

With three or more productions the first one (the start rule) was not first, and
alternatives came out reversed.
---
 src/grammar.rs    | 6 +++---
 src/production.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index dc06482..5c3218b 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -838,7 +838,7 @@ macro_rules! grammar {
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$curr_lhs:ident] $($prev_prods:tt)*] ; <$next_lhs:ident> ::= $($rest:tt)*) => {
         {
             // Save current production and start next one
-            $crate::grammar!(@collect_prods [[] [] [$next_lhs] [[$($curr_terms),*] $($curr_exprs)*] [$curr_lhs] $($prev_prods)*] $($rest)*)
+            $crate::grammar!(@collect_prods [[] [] [$next_lhs] $($prev_prods)* [$($curr_exprs)* [$($curr_terms),*]] [$curr_lhs]] $($rest)*)
         }
     };
 
@@ -849,7 +849,7 @@ macro_rules! grammar {
 
     // Hit | within a production - finish current expression, start new one
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$lhs:ident] $($prev_prods:tt)*] | $($rest:tt)*) => {
-        $crate::grammar!(@collect_prods [[] [[$($curr_terms),*] $($curr_exprs)*] [$lhs] $($prev_prods)*] $($rest)*)
+        $crate::grammar!(@collect_prods [[] [$($curr_exprs)* [$($curr_terms),*]] [$lhs] $($prev_prods)*] $($rest)*)
     };
 
     // Collect a literal term
@@ -869,7 +869,7 @@ macro_rules! grammar {
             {
                 let mut prods = vec![];
 
-                // Build previous productions (in reverse order since we accumulated backwards)
+                // Build previous productions (accumulated in source order)
                 $(
                     let mut exprs = vec![];
                     $crate::grammar!(@build_exprs exprs $($prod_exprs)*);
diff --git a/src/production.rs b/src/production.rs
index 3f8b832..ba421cc 100644
--- a/src/production.rs
+++ b/src/production.rs
@@ -144,7 +144,7 @@ macro_rules! production {
 
     // Hit | separator - finish current expression group, start new one
     (@collect_exprs [[$($current:expr),*] $($prev_exprs:tt)*] | $($rest:tt)*) => {
-        $crate::production!(@collect_exprs [[] [$($current),*] $($prev_exprs)*] $($rest)*)
+        $crate::production!(@collect_exprs [[] $($prev_exprs)* [$($current),*]] $($rest)*)
     };
 
     // Collect a literal term into current expression
@@ -163,7 +163,7 @@ macro_rules! production {
             #[allow(clippy::vec_init_then_push)]
             {
                 let mut exprs = vec![];
-                // Add previous expressions in reverse order (they were accumulated backwards)
+                // Add previous expressions (accumulated in source order)
                 $(exprs.push($crate::Expression::from_parts(vec![$($prev),*]));)*
                 // Add the last expression
                 exprs.push($crate::Expression::from_parts(vec![$($last),*]));
-- 
2.43.0


From 21a5894ea405687dafbf4fe8ee2a1dc05906b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 4/7] fix: Grammar::remove_production keeps the order of the
 other productions

swap_remove moved the last production into the gap, so removing the first
production made the last one the start rule.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 5c3218b..d1b45b2 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -348,7 +348,7 @@ impl Grammar {
         self.productions
             .iter()
             .position(|x| *x == *prod)
-            .map(|pos| self.productions.swap_remove(pos))
+            .map(|pos| self.productions.remove(pos))
     }
 
     /// Get iterator of the `Grammar`'s `Production`s
-- 
2.43.0


From 64667aa99fd2baf7fc603abbf1b738c9275461d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 5/7] fix: generate prints an undefined nonterminal as
 <identifier>

This is what the README documents.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index d1b45b2..399f684 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -515,7 +515,7 @@ impl Grammar {
                 .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
             {
                 Some(p) => p,
-                None => return Ok(ident.to_string()),
+                None => return Ok(format!("<{ident}>")),
             };
 
             /// True if the production has no choosable alternative (no RHS or only an empty/epsilon alternative).
-- 
2.43.0


From c2a560e5daf59cd173869090bf090308285926fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 6/7] fix: build_parser agrees with validate on productions
 without alternatives

A nonterminal whose production has no alternatives is defined for validate but
was reported as undefined by build_parser.
---
 src/parser/grammar.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/grammar.rs b/src/parser/grammar.rs
index 087d4dd..dd6e5c3 100644
--- a/src/parser/grammar.rs
+++ b/src/parser/grammar.rs
@@ -44,10 +44,13 @@ impl<'gram, 'a> ParseGrammar<'gram> {
             .productions_iter()
             .flat_map(|prod| prod.rhs_iter().map(|rhs| (&prod.lhs, rhs)));
 
-        for (lhs, rhs) in flat_prod_iter {
-            if let crate::Term::Nonterminal(nt) = lhs {
+        for prod in grammar.productions_iter() {
+            if let crate::Term::Nonterminal(nt) = &prod.lhs {
                 sets.record_lhs(nt.as_str());
             }
+        }
+
+        for (lhs, rhs) in flat_prod_iter {
             for term in rhs.terms_iter() {
                 if let crate::Term::Nonterminal(nt) = term {
                     sets.record_rhs(nt.as_str());
-- 
2.43.0


From 21624c1a2f21698d3f00ee27ed409be3ebbdeada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 7/7] fix: Weighted no longer overflows when the weights sum
 past u32::MAX

---
 src/generation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generation.rs b/src/generation.rs
index eeaec6c..3d10a15 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -275,12 +275,13 @@ impl Weighted {
 
     /// Weighted random index; if total weight is 0, returns uniform random in `0..fallback_len`.
     fn weighted_random_index(rng: &mut StdRng, weights: &[u32], fallback_len: usize) -> usize {
-        let total: u32 = weights.iter().sum();
+        let total: u64 = weights.iter().map(|&w| u64::from(w)).sum();
         if total == 0 {
             return random_index(rng, fallback_len);
         }
         let mut r = rng.random_range(0..total);
         for (i, &w) in weights.iter().enumerate() {
+            let w = u64::from(w);
             if r < w {
                 return i;
             }
-- 
2.43.0

