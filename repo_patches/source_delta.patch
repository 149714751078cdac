From dca891a73e8da05756856843ec100415d0305443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 1/9] fix: validate bitvector literals wider than 64 bits at
 their full value

The SMT encoding truncated literals to u64, so rules over BV128 with a
large literal were validated against a different constant.
---
 src/bv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 99323e9..8205eba 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -250,7 +250,11 @@ macro_rules! impl_bv {
                     for node in expr.as_ref().iter() {
                         match node {
                             Bv::Var(v) => buf.push(z3::ast::BV::new_const(&ctx, v.to_string(), $n)),
-                            Bv::Lit(c) => buf.push(z3::ast::BV::from_u64(&ctx, c.0 as u64, $n)),
+                            Bv::Lit(c) => buf.push(
+                                z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u64, 64)
+                                    .concat(&z3::ast::BV::from_u64(&ctx, c.0 as u64, 64))
+                                    .extract($n - 1, 0),
+                            ),
                             Bv::Add([a, b]) => buf.push(buf[usize::from(*a)].bvadd(&buf[usize::from(*b)])),
                             Bv::Sub([a, b]) => buf.push(buf[usize::from(*a)].bvsub(&buf[usize::from(*b)])),
                             Bv::Mul([a, b]) => buf.push(buf[usize::from(*a)].bvmul(&buf[usize::from(*b)])),
-- 
2.43.0


From 09cdf18d0c34eac845188df90751352452ec21f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 2/9] fix: minimize reports only rejected candidates as invalid

The reverse of a popped candidate was added to the invalid set even when
it was not a candidate, and even when the validator accepts it.
---
 src/enumo/ruleset.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index ac0130e..7c5225e 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -374,10 +374,12 @@ impl<L: SynthLanguage> Ruleset<L> {
                 // If reverse direction is also in candidates, add it at the same time
                 let reverse = Rule::new(&rule.rhs, &rule.lhs);
                 if let Some(reverse) = reverse {
-                    if self.contains(&reverse) && reverse.is_valid() {
-                        selected.add(reverse);
-                    } else {
-                        invalid.add(reverse);
+                    if self.contains(&reverse) {
+                        if reverse.is_valid() {
+                            selected.add(reverse);
+                        } else {
+                            invalid.add(reverse);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 275d4dcd722791578c524507926f083928107feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 3/9] fix: plugging an empty workload excludes the plugged name
 literally

The name was parsed as a filter pattern, so plugging an empty workload
into "*" or "?x" dropped every term.
---
 src/enumo/workload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/workload.rs b/src/enumo/workload.rs
index 913d333..7289943 100644
--- a/src/enumo/workload.rs
+++ b/src/enumo/workload.rs
@@ -127,7 +127,7 @@ impl Workload {
         match workload {
             // Empty plug is the same as filter excludes
             Workload::Set(xs) if xs.is_empty() => {
-                self.filter(Filter::Excludes(name.into().parse().unwrap()))
+                self.filter(Filter::Excludes(Pattern::Lit(name.into())))
             }
             _ => Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone())),
         }
-- 
2.43.0


From 87045fc075f275341db0c2fad8bf2edd647afd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 4/9] fix: recursive_rules uses a grammar with one operator
 slot per arity of the language

Languages with one operator arity left OP2/OP3 unplugged (and panicked),
and languages with more than three silently lost operators.
---
 src/recipe_utils.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/recipe_utils.rs b/src/recipe_utils.rs
index af9771f..4446654 100644
--- a/src/recipe_utils.rs
+++ b/src/recipe_utils.rs
@@ -173,11 +173,7 @@ pub fn recursive_rules<L: SynthLanguage>(
         Ruleset::default()
     } else {
         let mut rec = recursive_rules(metric, n - 1, lang.clone(), prior.clone());
-        let base_lang = if lang.ops.len() == 2 {
-            base_lang(2)
-        } else {
-            base_lang(3)
-        };
+        let base_lang = base_lang(lang.ops.len());
         let mut wkld = iter_metric(base_lang, "EXPR", metric, n)
             .filter(Filter::Contains("VAR".parse().unwrap()))
             .plug("VAR", &Workload::new(lang.vars))
-- 
2.43.0


From 88716fa7501d5f8d3f59b5c2177341cbe399b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 5/9] fix: the empty list survives plug and has a depth

Plugging dropped any term containing (), and measuring its depth panicked.
---
 src/enumo/sexp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index 597e618..7c9c696 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -91,6 +91,7 @@ impl Sexp {
         match self {
             Sexp::Atom(s) if s == name => pegs.to_vec(),
             Sexp::Atom(_) => vec![self.clone()],
+            Sexp::List(sexps) if sexps.is_empty() => vec![self.clone()],
             Sexp::List(sexps) => sexps
                 .iter()
                 .map(|x| x.plug(name, pegs))
@@ -109,7 +110,7 @@ impl Sexp {
             Sexp::List(s) => match metric {
                 Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),
                 Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,
-                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap() + 1,
+                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,
             },
         }
     }
-- 
2.43.0


From e7e849782bd2ef55f96bfe4375346723f98af8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 6/9] fix: deserializing a bitvector reduces it to its width

The derived implementation built values outside the width, which compare
unequal to the same value obtained any other way.
---
 src/bv.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 8205eba..a1fa762 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -7,7 +7,7 @@ use serde::Deserialize;
 use serde::Serialize;
 
 // General bitvector implementation
-#[derive(Copy, Clone, Hash, PartialOrd, Ord, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(Copy, Clone, Hash, PartialOrd, Ord, PartialEq, Eq, Serialize)]
 #[serde(transparent)]
 pub struct BV<const N: Inner>(pub Inner);
 
@@ -120,6 +120,12 @@ impl<const N: Inner> std::str::FromStr for BV<N> {
     }
 }
 
+impl<'de, const N: Inner> Deserialize<'de> for BV<N> {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        Inner::deserialize(deserializer).map(Self::new)
+    }
+}
+
 impl<const N: Inner> From<Inner> for BV<N> {
     fn from(v: Inner) -> Self {
         Self::new(v)
-- 
2.43.0


From 08213a21233260b4688dfbd10a69b8a493c88635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 7/9] fix: bitvector workloads without variables do not panic

With no variables there is one environment, so cvecs have length one.
---
 src/bv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index a1fa762..53d1c12 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -237,7 +237,7 @@ macro_rules! impl_bv {
 
                 let mut cvecs = self_product(&consts, vars.len());
 
-                egraph.analysis.cvec_len = cvecs[0].len();
+                egraph.analysis.cvec_len = cvecs.first().map_or(1, |cvec| cvec.len());
 
                 for (i, v) in vars.iter().enumerate() {
                     let id = egraph.add(Bv::Var(Symbol::from(v.clone())));
-- 
2.43.0


From cc33000ee0dac70487d97186be3345156fb3e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 8/9] fix: cvec matching requires a position where both cvecs
 are defined and equal

Two cvecs with no common defined position matched, against the definition
given above the comparison.
---
 src/enumo/ruleset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index 7c5225e..87f1f6f 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -280,13 +280,15 @@ impl<L: SynthLanguage> Ruleset<L> {
             .collect();
 
         let compare = |cvec1: &CVec<L>, cvec2: &CVec<L>| -> bool {
+            let mut witness = false;
             for tup in cvec1.iter().zip(cvec2) {
                 match tup {
                     (Some(a), Some(b)) if a != b => return false,
+                    (Some(_), Some(_)) => witness = true,
                     _ => (),
                 }
             }
-            true
+            witness
         };
         let mut candidates = Ruleset::default();
         let extract = Extractor::new(egraph, AstSize);
-- 
2.43.0


From 5d73c1b3a75048c64e913499ae4f64432aff0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 9/9] fix: a malformed binary literal is a parse error, not a
 panic

---
 src/bv.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bv.rs b/src/bv.rs
index 53d1c12..69df623 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -113,8 +113,7 @@ impl<const N: Inner> std::str::FromStr for BV<N> {
     type Err = std::num::ParseIntError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = s.strip_prefix("#b") {
-            let i = Inner::from_str_radix(stripped, 2).unwrap();
-            return Ok(Self::new(i));
+            return Inner::from_str_radix(stripped, 2).map(Self::new);
         }
         s.parse::<Inner>().map(Self::new)
     }
-- 
2.43.0

