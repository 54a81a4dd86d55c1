From b18d17b3a729df90d10ad0d3a91e31f050702bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 01/46] fix: scope of the variable bound by let..in

---
 .../src/parser/parser/parsable_trait.rs            | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 608d474..ae9333d 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -130,9 +130,21 @@ where
             t1,
             t2,
         } = self;
+        let bn = bvars.len();
+
         let var = var.parse(env, bvars, state, None)?;
-        let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
+        // `var` is not in scope in `t1`
+        let mut hidden_var = bvars.split_off(bn);
+        let t1 = t1.parse(
+            env,
+            bvars,
+            &var.sort().realm().unwrap_or(state.get_realm()),
+            Some(var.sort().into()),
+        )?;
+
+        bvars.append(&mut hidden_var);
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
+        bvars.truncate(bn);
 
         Ok(t2.apply_substitution2(&OneVarSubstF::new(var, t1)))
     }
-- 
2.43.0


From 75f02dd6e9865a63ddf3e5516eec31af8a1fa465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 02/46] fix: a shadowed variable refers to its innermost binder

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index ae9333d..b161aba 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -410,6 +410,7 @@ where
                 // check if it is a variable
                 bvars
                     .iter()
+                    .rev() // the innermost binder wins
                     .find(|(s, _)| s == content)
                     .map(|(_, v)| {
                         let VarProxy { id, sort } = v;
-- 
2.43.0


From 9b4fc5c02cb5798ad94ef26417eec14b33adf1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 03/46] fix: expanding a macro no longer captures the variables
 of its caller

---
 .../src/parser/parser/parsable_trait.rs       | 47 ++++++++++++++-----
 .../parser/parsing_environement/cache/step.rs | 12 ++++-
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index b161aba..d86e2b9 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -574,6 +574,18 @@ where
     Ok(formula)
 }
 
+/// Anonymous version of `bvars`: the variables can't be refered to anymore but
+/// their ids remain reserved. This ensures that the variables bound when
+/// expanding a macro can't capture those of its caller.
+fn hide_bvars<'bump, S: Pstr>(
+    bvars: &[(S, VarProxy<'bump>)],
+) -> Vec<(S, VarProxy<'bump>)> {
+    bvars
+        .iter()
+        .map(|(_, v)| (S::from_static(""), v.clone()))
+        .collect()
+}
+
 impl<'a, 'bump, S> Parsable<'bump, 'a> for ast::AppMacro<'a, S>
 where
     S: Pstr,
@@ -611,7 +623,14 @@ where
                     .unknown_symbol(app, &"step", app.name())
                     .debug_continue()?;
 
-                let mut nbvars = step_cache.args_vars_with_input().map_into().collect();
+                // keep clear of the caller's variables
+                let offset = from_usize(bvars.len());
+                let mut nbvars = hide_bvars(bvars);
+                nbvars.extend(step_cache.args_vars_with_input().map(|v| {
+                    let variable = v.variable();
+                    let id = variable.id + offset;
+                    (v.name, Variable { id, ..variable }.into())
+                }));
 
                 let (to_parse, _) = match inner {
                     ast::InnerAppMacro::Msg(_) => (&step_cache.ast.message, MESSAGE.as_sort()),
@@ -625,7 +644,7 @@ where
 
                 Ok(term
                     .owned_into_inner()
-                    .apply_substitution2(&step_cache.substitution(args.as_ref())))
+                    .apply_substitution2(&step_cache.substitution(offset, args.as_ref())))
             }
             ast::InnerAppMacro::Other { name, args } => {
                 let mmacro = env
@@ -669,16 +688,20 @@ where
                     )
                 };
 
+                // keep clear of the caller's variables
+                let offset = from_usize(bvars.len());
                 let term = {
-                    let mut bvars = mmacro
-                        .args
-                        .iter()
-                        .zip(mmacro.args_name.iter())
-                        .zip(0..)
-                        .map(|((var_sort, var_name), id)| {
-                            (var_name.clone(), Variable::new(id, *var_sort).into())
-                        })
-                        .collect_vec();
+                    let mut bvars = hide_bvars(bvars);
+                    bvars.extend(
+                        mmacro
+                            .args
+                            .iter()
+                            .zip(mmacro.args_name.iter())
+                            .zip(offset..)
+                            .map(|((var_sort, var_name), id)| {
+                                (var_name.clone(), Variable::new(id, *var_sort).into())
+                            }),
+                    );
                     mmacro
                         .content
                         .parse(env, &mut bvars, state, expected_sort)
@@ -687,7 +710,7 @@ where
 
                 Ok(term
                     .owned_into_inner()
-                    .apply_substitution(0..from_usize(mmacro.args.len()), &args))
+                    .apply_substitution(offset..offset + from_usize(mmacro.args.len()), &args))
             }
         }
     }
diff --git a/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs b/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs
index 9d79e80..0a7140a 100644
--- a/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs
+++ b/crates/cryptovampire/src/parser/parser/parsing_environement/cache/step.rs
@@ -64,10 +64,18 @@ where
         }
     }
 
-    pub fn substitution(&self, args: &[ARichFormula<'bump>]) -> FrozenSubstF<'_, 'bump> {
+    /// `offset` is by how much the ids of [Self::args_vars_with_input] were shifted
+    pub fn substitution(
+        &self,
+        offset: uvar,
+        args: &[ARichFormula<'bump>],
+    ) -> FrozenSubstF<'_, 'bump> {
         assert_eq!(args.len(), self.args.len());
 
-        let vars = self.args_vars_with_input().map(|v| v.id()).collect();
+        let vars = self
+            .args_vars_with_input()
+            .map(|v| v.id() + offset)
+            .collect();
         let formulas = args
             .iter()
             .cloned()
-- 
2.43.0


From 2bf6772a9296538f5b53893341448fe813cc1a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 04/46] fix: infinite recursion on <=> in steps

---
 .../cryptovampire/src/parser/parser/parsable_trait.rs  | 10 ++++++++++
 .../parser/parser/parsable_trait/cached_builtins.rs    |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index d86e2b9..298eb4b 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -804,6 +804,16 @@ where
                     &self.terms,
                 )
                 .debug_continue(),
+                Realm::Symbolic if self.terms.len() == 2 => parse_application(
+                    env,
+                    &self.span,
+                    state,
+                    bvars,
+                    expected_sort,
+                    &IFF_TA_CACHE(),
+                    &self.terms,
+                )
+                .debug_continue(),
                 Realm::Symbolic => Self {
                     operation: ast::Operation::And,
                     terms: as_pair_of_term(
diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
index 1e5188c..7c12fe8 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
@@ -33,6 +33,12 @@ pub(crate) fn EQUALITY_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'
 //     MOw::Owned(IFF.clone().into())
 // }
 
+// #[dynamic]
+#[allow(non_snake_case)]
+pub(crate) fn IFF_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'str, 'bump, S>> {
+    MOw::Owned((*IFF_TA).into())
+}
+
 // #[dynamic]
 #[allow(non_snake_case)]
 pub(crate) fn IMPLIES_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'str, 'bump, S>> {
-- 
2.43.0


From 05340387b734a443c94f0d3cee6a6eac0e79b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 05/46] fix: reject applications with too many arguments

---
 .../src/parser/parser/parsable_trait.rs       | 49 ++++++++++---------
 .../parser/parse_step_cell_asserts/step.rs    | 10 ++++
 2 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 298eb4b..c253f2b 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -503,6 +503,19 @@ where
 {
     let signature = function.signature();
     let mut formula_realm = signature.realm();
+    let args = args.into_iter().collect_vec();
+
+    // check arity
+    if !signature.args_size().contains(&args.len().into()) {
+        let range = signature.args_size();
+        bail_at!(
+            span,
+            "wrong number of arguments: got {}, expected [{}, {}]",
+            args.len(),
+            range.start(),
+            range.end()
+        )
+    }
 
     // parse further
     let n_args: Result<Vec<_>, _> = {
@@ -520,18 +533,6 @@ where
     };
     let n_args = n_args?;
 
-    // check arity
-    if !signature.args_size().contains(&n_args.len().into()) {
-        let range = signature.args_size();
-        bail_at!(
-            span,
-            "wrong number of arguments: got {}, expected [{}, {}]",
-            n_args.len(),
-            range.start(),
-            range.end()
-        )
-    }
-
     let ifun = function.get_function();
     // if it's a name, cast it
     let formula = if let Some(name) = ifun.as_name() {
@@ -756,6 +757,17 @@ where
                 .parse(env, bvars, state, expected_sort)
                 .debug_continue(),
             },
+            ast::Operation::Eq | ast::Operation::Iff if self.terms.len() > 2 => Self {
+                operation: ast::Operation::And,
+                terms: as_pair_of_term(
+                    &self.span,
+                    self.operation,
+                    self.terms.iter().tuple_windows(),
+                ),
+                span: self.span.clone(),
+            }
+            .parse(env, bvars, state, expected_sort)
+            .debug_continue(),
             ast::Operation::Eq => match state.get_realm() {
                 Realm::Evaluated => parse_application(
                     env,
@@ -804,7 +816,7 @@ where
                     &self.terms,
                 )
                 .debug_continue(),
-                Realm::Symbolic if self.terms.len() == 2 => parse_application(
+                Realm::Symbolic => parse_application(
                     env,
                     &self.span,
                     state,
@@ -814,17 +826,6 @@ where
                     &self.terms,
                 )
                 .debug_continue(),
-                Realm::Symbolic => Self {
-                    operation: ast::Operation::And,
-                    terms: as_pair_of_term(
-                        &self.span,
-                        self.operation,
-                        self.terms.iter().tuple_windows(),
-                    ),
-                    span: self.span.clone(),
-                }
-                .parse(env, bvars, state, expected_sort)
-                .debug_continue(),
             },
             ast::Operation::Implies => {
                 let function = match state.get_realm() {
diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
index 65cdbd5..8e35bd1 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
@@ -13,6 +13,7 @@ use crate::{
     problem::{cell::Assignement, step::InnerStep},
 };
 use crate::{
+    bail_at,
     error::{BaseContext, BaseError, CVContext, ExtraOption},
     parser::{
         parser::{parsable_trait::Parsable, CellCache, FunctionCache},
@@ -147,6 +148,15 @@ where
                 .and_then(FunctionCache::as_memory_cell)
                 .unknown_symbol(cell_ast, &"cell", cell_name)?;
 
+            if cell_ast.args().len() != args.len() {
+                bail_at!(
+                    cell_ast,
+                    "wrong number of arguments: got {}, expected {}",
+                    cell_ast.args().len(),
+                    args.len()
+                )
+            }
+
             // get the arguments and apply substitution
             let cell_args: Result<Arc<[_]>, _> = cell_ast
                 .args()
-- 
2.43.0


From 64dc2fd6387280d32a448523ae97f35f2512ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 06/46] fix: evaluated user predicates in assertions and
 queries were undeclared or unbound

---
 .../assertion_preprocessor.rs                 | 24 +++++++++++--------
 .../cryptovampire/src/problem/problem/mod.rs  |  5 ++--
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
index b203578..b08f20c 100644
--- a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
@@ -2,6 +2,8 @@ use std::borrow::Cow;
 
 use itertools::Itertools;
 
+use crate::environement::environement::Environement;
+use crate::environement::traits::KnowsRealm;
 use crate::formula::{
     self,
     formula::{ARichFormula, RichFormula},
@@ -17,10 +19,16 @@ use crate::formula::{
 };
 
 pub fn propagate_evaluate<'bump>(
-    assertion: &RichFormula<'bump>,
-    env: &Evaluator<'bump>,
+    assertion: &ARichFormula<'bump>,
+    env: &Environement<'bump>,
+    evaluator: &Evaluator<'bump>,
 ) -> ARichFormula<'bump> {
-    preprocess_before_eval(assertion, env).as_ref().into()
+    // the evaluated version of the functions only exists in the symbolic realm
+    if env.is_symbolic_realm() && !env.no_bitstring_functions() {
+        preprocess_before_eval(assertion, evaluator).as_ref().into()
+    } else {
+        assertion.clone()
+    }
 }
 
 fn preprocess_before_eval<'a, 'bump>(
@@ -61,10 +69,6 @@ fn preprocess_after_eval<'bump>(
     env: &Evaluator<'bump>,
 ) -> RichFormula<'bump> {
     match assertion {
-        RichFormula::Var(v) if v.sort().is_evaluatable() => Some(RichFormula::Var(Variable {
-            sort: v.sort().maybe_evaluated_sort().unwrap(),
-            ..*v
-        })),
         RichFormula::Fun(fun, args) => match fun.as_ref().maybe_get_evaluated() {
             Some(f) => Some(RichFormula::Fun(
                 f,
@@ -86,7 +90,7 @@ fn preprocess_after_eval<'bump>(
                     InnerQuantifier::Forall { content } | InnerQuantifier::Exists { content } => {
                         Some({
                             let content = content.apply_substitution2(&FrozenSubstF::new_from(
-                                bound_variables.iter().map(Variable::id).collect_vec(),
+                                free_variables.iter().map(Variable::id).collect_vec(),
                                 args,
                             ));
                             let content = preprocess_after_eval(content.as_ref(), env);
@@ -94,12 +98,12 @@ fn preprocess_after_eval<'bump>(
                             let q = match inner {
                                 InnerQuantifier::Forall { .. } => {
                                     formula::quantifier::Quantifier::Forall {
-                                        variables: free_variables.clone(),
+                                        variables: bound_variables.clone(),
                                     }
                                 }
                                 InnerQuantifier::Exists { .. } => {
                                     formula::quantifier::Quantifier::Exists {
-                                        variables: free_variables.clone(),
+                                        variables: bound_variables.clone(),
                                     }
                                 }
                                 _ => unreachable!(),
diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index e675c99..e960fc8 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -242,8 +242,7 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
         assertions.extend(
             self.assertions
                 .iter()
-                .cloned()
-                .map(|a| propagate_evaluate(a.as_ref(), &self.evaluator))
+                .map(|a| propagate_evaluate(a, env, &self.evaluator))
                 .map(Axiom::base),
         );
         trace!("[G]\t\t[DONE]");
@@ -251,7 +250,7 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
         trace!("[G]\t- query...");
         assertions.push(Axiom::Comment("query".into()));
         assertions.push(Axiom::Query {
-            formula: propagate_evaluate(self.query.as_ref(), &self.evaluator),
+            formula: propagate_evaluate(&self.query, env, &self.evaluator),
         });
 
         trace!("[G]\t\t[DONE]");
-- 
2.43.0


From fdb1e3fc4815eb3a0effb816716f6d177aeb6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 07/46] fix: builtin FALSE formula was TRUE

---
 crates/cryptovampire/src/formula/function/builtin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/function/builtin.rs b/crates/cryptovampire/src/formula/function/builtin.rs
index 4fa2284..62198ca 100644
--- a/crates/cryptovampire/src/formula/function/builtin.rs
+++ b/crates/cryptovampire/src/formula/function/builtin.rs
@@ -70,7 +70,7 @@ pub static TRUE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
 pub static TRUE_ARC: ARichFormula<'static> = TRUE.clone_as_arc();
 
 #[dynamic]
-pub static FALSE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
+pub static FALSE: RichFormula<'static> = RichFormula::Fun(*FALSE_F, Arc::new([]));
 
 #[dynamic]
 pub static AND: Function<'static> = new_static_function(InnerFunction::Bool(Booleans::Connective(
-- 
2.43.0


From d1a8e376951490718bf62ab08741550e973815d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 08/46] fix: declare the sort Name when the protocol has no
 names

---
 .../cryptovampire/src/problem/problem/mod.rs  | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index e960fc8..944554b 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -26,7 +26,10 @@ use crate::{
         function::{
             inner::evaluate::Evaluator, name_caster_collection::NameCasterCollection, Function,
         },
-        sort::{builtins::CONDITION, Sort},
+        sort::{
+            builtins::{CONDITION, NAME},
+            Sort,
+        },
         variable::{uvar, IntoVariableIter},
     },
 };
@@ -207,15 +210,23 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
                 }
             }
 
-            declarations.push(Declaration::DataTypes(
-                datatypes
-                    .into_iter()
-                    .map(|(sort, constructor_destructors)| DataType {
-                        sort,
-                        constructor_destructors,
-                    })
-                    .collect(),
-            ));
+            // datatypes can't be empty, without names it is a plain sort
+            let name = NAME.as_sort();
+            if !datatypes.contains_key(&name) {
+                declarations.push(Declaration::Sort(name))
+            }
+
+            if !datatypes.is_empty() {
+                declarations.push(Declaration::DataTypes(
+                    datatypes
+                        .into_iter()
+                        .map(|(sort, constructor_destructors)| DataType {
+                            sort,
+                            constructor_destructors,
+                        })
+                        .collect(),
+                ));
+            }
         }
         trace!("[G]\t\t[DONE]");
 
-- 
2.43.0


From 3c890d65a67b2458af0e2982deb94203d58e2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:17 +0000
Subject: [PATCH 09/46] fix: gt was axiomatised as the negation of the reverse
 of lt

---
 crates/cryptovampire/src/problem/general_assertions/order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/order.rs b/crates/cryptovampire/src/problem/general_assertions/order.rs
index fa64abd..d84f224 100644
--- a/crates/cryptovampire/src/problem/general_assertions/order.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/order.rs
@@ -63,7 +63,7 @@ pub fn generate<'bump>(
                     (leq.f([t2.into(), pred.apply([t1])]) | leq.f([t1, t2]))}), // ax11
             // other
             mforall!(a!0:step, b!1:step;
-                {!meq(gt.f([a, b]), lt.f([b, a]))}),
+                {meq(gt.f([a, b]), lt.f([b, a]))}),
         ]
         .into_iter()
         .map(Axiom::theory), // .chain(pbl.protocol().ordering().iter().cloned().map(Axiom::base)),
-- 
2.43.0


From e4706e578698b309b0ab2e3521644afa73683610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:17 +0000
Subject: [PATCH 10/46] fix: direct definition of exec only looked at the
 condition of the last step

---
 .../cryptovampire/src/problem/crypto_assumptions/unfolding.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
index 21db0b3..f7227d1 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
@@ -118,7 +118,7 @@ impl<'bump> Unfolding<'bump> {
                 mforall!(s!1:step; {HAPPENS.f([s]) >>
                   meq(ev.eval(exec.f([s])),
                   mforall!(s2!2:step;
-                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s]))}))})
+                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s2]))}))})
             });
 
             chain!(
-- 
2.43.0


From 3ddef731c40e529d53179eda04e92cc28193934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:39 +0000
Subject: [PATCH 11/46] fix: assignments of memory cells only take place when
 the step happens

---
 .../cryptovampire/src/problem/crypto_assumptions/cell.rs  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
index 8685f1d..78fc16a 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
@@ -8,7 +8,7 @@ use crate::{
     formula::{
         file_descriptior::{axioms::Axiom, declare::Declaration},
         formula,
-        function::builtin::PRED,
+        function::builtin::{HAPPENS, PRED},
         sort::builtins::STEP,
         variable::{from_usize, Variable},
     },
@@ -79,7 +79,11 @@ impl Cell {
                                 (
                                     formula::forall(
                                         bvars.clone(),
-                                        ands.shallow_copy() >> formula::meq(&cell_call, content),
+                                        (HAPPENS.f([step_var]) & ands.shallow_copy())
+                                            >> formula::meq(
+                                                pbl.evaluator().eval(&cell_call),
+                                                pbl.evaluator().eval(content),
+                                            ),
                                     ),
                                     formula::forall(bvars, !ands.shallow_copy()),
                                 )
-- 
2.43.0


From ab70fc500230d8132800eaa1803af4878c4b16d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:29 +0000
Subject: [PATCH 12/46] fix: not, forall and exists in conditions are
 equivalences

---
 .../problem/general_assertions/evaluate.rs    | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index 6db6675..7f1c186 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -231,8 +231,9 @@ fn generate_connectives<'bump>(
         }))),
         Connective::BaseConnective(BaseConnective::Not) => {
             assertions.push(Axiom::base(mforall!(a!0:cond; {
-                pbl.evaluator().eval(function.apply([a])) >>
-                    !pbl.evaluator().eval(a)
+                meq(
+                    pbl.evaluator().eval(function.apply([a])),
+                    !pbl.evaluator().eval(a))
             })))
         }
         Connective::BaseConnective(c) => {
@@ -265,20 +266,24 @@ pub fn generate_quantifier<'bump>(
     match q.inner() {
         InnerQuantifier::Forall { content } => {
             assertions.push(Axiom::base(mforall!(q.free_variables.iter().cloned(), {
-                pbl.evaluator()
-                    .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula())))
-                    >> mforall!(q.bound_variables.iter().cloned(), {
+                meq(
+                    pbl.evaluator()
+                        .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula()))),
+                    mforall!(q.bound_variables.iter().cloned(), {
                         pbl.evaluator().eval(content)
-                    })
+                    }),
+                )
             })))
         }
         InnerQuantifier::Exists { content } => {
             assertions.push(Axiom::base(mforall!(q.free_variables.iter().cloned(), {
-                pbl.evaluator()
-                    .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula())))
-                    >> mexists!(q.bound_variables.iter().cloned(), {
+                meq(
+                    pbl.evaluator()
+                        .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula()))),
+                    mexists!(q.bound_variables.iter().cloned(), {
                         pbl.evaluator().eval(content)
-                    })
+                    }),
+                )
             })))
         }
         InnerQuantifier::FindSuchThat {
-- 
2.43.0


From f882ef1997a6d369de7cf8ceca78dd391150d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 13/46] fix: the option recursive of unfolding was only known
 under a misspelling

---
 .../src/parser/parser/parse_step_cell_asserts/assert_crypto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
index bd3e5e3..7d76169 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
@@ -164,7 +164,8 @@ where
     }
 
     let mut flags = Default::default();
-    if options.contains("recurisve") {
+    // "recurisve" is kept for compatibility
+    if options.contains("recursive") || options.contains("recurisve") {
         flags |= CryptoFlag::RECURSIVE_EXEC
     };
     // default
-- 
2.43.0


From 34a90d20eea983b4c1370497cc11fd3357357639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:41 +0000
Subject: [PATCH 14/46] fix: looking for the variables of a formula under ta
 quantifiers could diverge

---
 .../src/formula/formula/expanding_formula.rs  | 40 +++++++++----------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/crates/cryptovampire/src/formula/formula/expanding_formula.rs b/crates/cryptovampire/src/formula/formula/expanding_formula.rs
index 9c51d7d..f5010ed 100644
--- a/crates/cryptovampire/src/formula/formula/expanding_formula.rs
+++ b/crates/cryptovampire/src/formula/formula/expanding_formula.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use itertools::{chain, izip, Either};
+use itertools::{izip, Either, Itertools};
 use logic_formula::{Bounder, Destructed, Formula, HeadSk};
 
 use crate::formula::{
@@ -17,7 +17,10 @@ pub struct Expander<'a, 'bump> {
     /// The formula to iterate through
     formula: &'a ARichFormula<'bump>,
     /// a substitution, see [Self::destruct]'s source to see how it is used
-    substitution: Arc<[(Variable<'bump>, &'a ARichFormula<'bump>)]>,
+    ///
+    /// The formulas come with their own substitution: they live outside of the
+    /// ta quantifier that introduced this one.
+    substitution: Arc<[(Variable<'bump>, Self)]>,
 }
 
 impl<'a, 'bump> Expander<'a, 'bump> {
@@ -48,17 +51,16 @@ impl<'a, 'bump> Formula for Expander<'a, 'bump> {
             // if it's a variable
             HeadSk::Var(v) => {
                 // if it's in the substitution
-                if let Some(formula) = substitution
+                if let Some(expander) = substitution
                     .iter()
-                    .rev()
-                    .find_map(|(sv, f)| (sv == &v).then_some(*f))
+                    .find_map(|(sv, f)| (sv == &v).then(|| f.clone()))
                 {
                     // apply the substitution and try again
-                    Self {
-                        substitution,
-                        formula,
+                    let Destructed { head, args } = expander.destruct();
+                    Destructed {
+                        head,
+                        args: Either::Right(args.collect_vec().into_iter()),
                     }
-                    .destruct()
                 } else {
                     // otherwise to the thing regularily
                     Destructed {
@@ -76,22 +78,18 @@ impl<'a, 'bump> Formula for Expander<'a, 'bump> {
                 },
                 // if it's a ta quantifier
                 Some(q) => {
-                    // update the substitution
-                    // note that we need to copy the whole content of the old `substitution`
-                    // so using something like an Arc<[ ]> doesn't make us lose performance
-                    // over a Vec-like structure. (plus the sized should be known before hand)
-                    let substitution: Arc<[_]> = chain!(
-                        substitution.iter().map(|(a, b)| (*a, *b)),
-                        izip!(q.free_variables.iter().cloned(), q.get_content_iter())
+                    // the content of the quantifier only knows about its own free
+                    // variables, which stand for the arguments
+                    let substitution: Arc<[_]> = izip!(
+                        q.free_variables.iter().cloned(),
+                        commun_f(substitution, args)
                     )
                     .collect();
                     // return the new object with the new substitution
+                    let content = commun_f(substitution, q.get_content_iter()).collect_vec();
                     Destructed {
                         head: HeadSk::Quant(q.into()),
-                        args: Either::Right(args.map(move |formula| Self {
-                            formula,
-                            substitution: substitution.clone(),
-                        })),
+                        args: Either::Right(content.into_iter()),
                     }
                 }
             },
@@ -100,7 +98,7 @@ impl<'a, 'bump> Formula for Expander<'a, 'bump> {
 }
 
 fn commun_f<'a, 'bump>(
-    substitutions: Arc<[(Variable<'bump>, &'a ARichFormula<'bump>)]>,
+    substitutions: Arc<[(Variable<'bump>, Expander<'a, 'bump>)]>,
     args: impl Iterator<Item = &'a ARichFormula<'bump>>,
 ) -> impl Iterator<Item = Expander<'a, 'bump>> {
     args.map(move |formula| Expander {
-- 
2.43.0


From f402e348d26c6af25c45b04ef6dc5cc1992e6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:41 +0000
Subject: [PATCH 15/46] fix: variable capture in the search for subterms

---
 .../src/formula/utils/formula_expander.rs     | 35 ++++++++++++++-----
 crates/cryptovampire/src/subterm/mod.rs       | 15 +++++++-
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 43a5b41..6725296 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -58,6 +58,10 @@ pub struct UnfoldingState<'bump> {
     /// The variables bound by the search (quantifiers or otherwise)
     #[builder(setter(into), default = "Rc::new([])")]
     bound_variables: Rc<[Variable<'bump>]>, // faster than Vec in our usecase
+    /// The other variables that the search must not capture (e.g., the ones of
+    /// the term we are looking for)
+    #[builder(setter(into), default = "Rc::new([])")]
+    reserved_variables: Rc<[Variable<'bump>]>,
     /// Some condition to get here
     #[builder(setter(into, strip_option), default)]
     guard: Option<ARichFormula<'bump>>,
@@ -104,6 +108,16 @@ impl<'bump> UnfoldingState<'bump> {
         &self.bound_variables
     }
 
+    /// All the variables a newly bound variable must be different from
+    fn variables_to_avoid(&self) -> Vec<Variable<'bump>> {
+        chain!(
+            self.bound_variables.iter(),
+            self.reserved_variables.iter()
+        )
+        .cloned()
+        .collect()
+    }
+
     /// Same as [Self::bound_variables()] but with an owned [Rc]
     pub fn owned_bound_variable(&self) -> Rc<[Variable<'bump>]> {
         self.bound_variables.clone()
@@ -214,7 +228,7 @@ impl<'bump> Unfolder<'bump> {
         kind: step_macro::MessageOrCondition,
     ) -> Vec<Unfolder<'bump>> {
         destvec!([arg] = args);
-        let state_variables = self.state.bound_variables();
+        let state_variables = self.state.variables_to_avoid();
         steps
             .into_iter()
             .map(|s| {
@@ -225,7 +239,7 @@ impl<'bump> Unfolder<'bump> {
                 .shallow_copy();
 
                 let collision_var =
-                    make_collision_avoiding_subst(s.free_variables(), state_variables);
+                    make_collision_avoiding_subst(s.free_variables(), &state_variables);
                 let nvars = s
                     .free_variables()
                     .iter()
@@ -235,7 +249,10 @@ impl<'bump> Unfolder<'bump> {
                     nvars.iter().copied(),
                     meq(arg, s.function().f(nvars.iter().map(ARichFormula::from))),
                 );
-                Unfolder { state, content }
+                Unfolder {
+                    state,
+                    content: content.apply_substitution2(&collision_var),
+                }
             })
             .collect_vec()
     }
@@ -276,9 +293,8 @@ impl<'bump> Unfolder<'bump> {
             args.iter().cloned().collect_vec(),
         );
         let collistion_avoidance = {
-            let to_avoid = chain!(q.free_variables.iter(), self.state.bound_variables())
-                .cloned()
-                .collect_vec();
+            let mut to_avoid = self.state.variables_to_avoid();
+            to_avoid.extend(q.free_variables.iter().cloned());
             make_collision_avoiding_subst(q.bound_variables.iter(), &to_avoid)
         };
         let new_state = self.state.add_variables(
@@ -315,7 +331,7 @@ fn unfold_cell_or_input<'b, 'bump>(
 where
     'bump: 'b,
 {
-    let state_variables = state.bound_variables();
+    let state_variables: Rc<[_]> = state.variables_to_avoid().into();
     // let max_var = state_variables.iter().map(|v| v.id).max().unwrap_or(0);
     trace!("expand_cell_or_input");
     let Ancestors { input, cells } = graph.ancestors(to_expand).unwrap();
@@ -324,6 +340,7 @@ where
     let step_origin = args.last().unwrap();
     let is_input = to_expand.is_input();
 
+    let cell_state_variables = Rc::clone(&state_variables);
     let cells_iter = cells.iter().flat_map(|c| c.assignements().iter()).map(
         move |ma @ Assignement {
                   step,
@@ -336,7 +353,7 @@ where
 
             let collision_var = make_collision_avoiding_subst(
                 chain!(vars.iter(), fresh_vars.iter()),
-                state_variables,
+                &cell_state_variables,
             );
 
             let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
@@ -364,7 +381,7 @@ where
             steps.into_iter().flat_map(move |step| {
                 trace!("in input");
                 let vars = step.free_variables();
-                let collision_var = make_collision_avoiding_subst(vars, state_variables);
+                let collision_var = make_collision_avoiding_subst(vars, &state_variables);
                 let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
 
                 [step.message_arc(), step.condition_arc()]
diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 8c29c35..1c1d26f 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -402,6 +402,14 @@ where
         trace!("------------------- preprocess_terms ---------------------");
         let realm = env.get_realm();
 
+        // the variables already in use, they mustn't be captured along the way
+        let m = m.into_iter().collect_vec();
+        let reserved: Rc<[_]> = std::iter::once(x)
+            .chain(m.iter().map(|m| &m.formula))
+            .flat_map(|f| f.used_vars_iter())
+            .unique()
+            .collect();
+
         // let pile = vec![(ExpantionState::None, m)];
         let pile = //repeat_n_zip(ExpantionState::from_deeper_kind(deeper_kind), m).collect_vec();
             m.into_iter().map(|FormlAndVars { bounded_variables, formula }| {
@@ -415,7 +423,12 @@ where
                     warn!("collision in the variables ({:} in {:}, {:?})",x, &formula, &bounded_variables)
                 }
                 // (, formula)
-                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).build().unwrap();
+                let passing = UnfoldingStateBuilder::default()
+                    .flags(deeper_kind)
+                    .bound_variables(bounded_variables)
+                    .reserved_variables(Rc::clone(&reserved))
+                    .build()
+                    .unwrap();
                 logic_formula::Content::Next { formula, passing }
             }).collect_vec();
         OwnedPile::new(
-- 
2.43.0


From d1eb53ea75dcbcc9cb2976a1796856ba280a43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:55 +0000
Subject: [PATCH 16/46] fix: a variable of sort Message may contain the term a
 subterm search looks for

---
 crates/cryptovampire/src/subterm/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 1c1d26f..9e20cff 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -27,10 +27,13 @@ use crate::{
     },
     formula::{
         file_descriptior::declare::{self, Declaration},
-        formula::{self, exists, forall, meq, ARichFormula},
+        formula::{self, exists, forall, meq, ARichFormula, RichFormula},
         function::{self, builtin::TRUE, Function, InnerFunction},
         manipulation::Unifier,
-        sort::Sort,
+        sort::{
+            builtins::{CONDITION, MESSAGE},
+            Sort,
+        },
         utils::formula_expander::{UnfoldFlags, UnfoldingState},
         variable::{sorts_to_variables, Variable},
     },
@@ -812,6 +815,18 @@ where
     {
         trace!("{} ⊑ {}", self.x, &f);
 
+        // a variable may stand for a term that contains `x`
+        if let RichFormula::Var(v) = f.as_ref() {
+            if [MESSAGE.as_sort(), CONDITION.as_sort()].contains(v.sort()) && &f != self.x {
+                let mut guard = vec![self.subterm.f_a(&self.realm, self.x.clone(), f.clone())];
+                if self.keep_guard {
+                    guard.extend(state.condition().into_iter().cloned())
+                }
+                helper.push_result((state.owned_bound_variable(), formula::ands(guard)));
+                return;
+            }
+        }
+
         // if this term "hides" some other terms to look for (e.g., macros, quantifiers) we queue them
         helper.extend_child(
             UnfolderBuilder::default()
-- 
2.43.0


From aa5b5650b8bedea4a47de56207f70963e5d54ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:54 +0000
Subject: [PATCH 17/46] fix: unbound variable in the side condition of int-ctxt
 on randomness

---
 crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 652e1fd..a8381c2 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -364,7 +364,7 @@ impl<'bump> IntCtxt<'bump> {
                                     let unifier_m = unify(&m1, &m2)?;
 
                                     let free_vars = BTreeSet::from_iter(
-                                        [&r1, &m1, &k1, &r2, &m2, &r2]
+                                        [&r1, &m1, &k1, &r2, &m2, &k2]
                                             .into_iter()
                                             .flat_map(|f| f.free_vars_iter()),
                                     );
-- 
2.43.0


From e8a37ed5ab21b542875d87672be28af8f2dda620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:36 +0000
Subject: [PATCH 18/46] fix: the general int-ctxt axiom applied dec to a name
 instead of a message

---
 crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index a8381c2..02afe18 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -139,7 +139,7 @@ impl<'bump> IntCtxt<'bump> {
                 formula: mforall!(c!1:message_sort, k!3:nonce_sort; {
                     let k_f = nc.cast(message_sort, k);
                     // ev.eval(self.verify.apply([c.into(), k_f.clone()])) >>
-                    (!meq(ev.eval(self.dec.f([c, k])), ev.eval(self.fail()))) >>
+                    (!meq(ev.eval(self.dec.f([c.into(), k_f.clone()])), ev.eval(self.fail()))) >>
                     mexists!(m!4:message_sort, r!5:nonce_sort; {
                         let r_f = nc.cast(message_sort, r);
                         let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
-- 
2.43.0


From fc46a2985c538fa6379fffb009fd6d254eabbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:12 +0000
Subject: [PATCH 19/46] fix: a satisfiable problem was reported as proven by
 vampire

---
 crates/cryptovampire/src/runner/vampire.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/cryptovampire/src/runner/vampire.rs b/crates/cryptovampire/src/runner/vampire.rs
index 46d188c..6e3ee35 100644
--- a/crates/cryptovampire/src/runner/vampire.rs
+++ b/crates/cryptovampire/src/runner/vampire.rs
@@ -134,6 +134,15 @@ const SUCCESS_RC: i32 = 0;
 /// Timeout return code
 const TIMEOUT_RC: i32 = 1;
 
+/// Did vampire find the problem to be satisfiable?
+fn is_satisfiable(stdout: &str) -> bool {
+    stdout.lines().any(|l| {
+        l.contains("SZS status Satisfiable")
+            || l.contains("SZS status CounterSatisfiable")
+            || l.contains("Termination reason: Satisfiable")
+    })
+}
+
 impl Runner for VampireExec {
     type Args<'a> = &'a [VampireArg];
 
@@ -175,6 +184,8 @@ impl Runner for VampireExec {
                 stdout,
                 return_code,
             } => match return_code {
+                // vampire also succeeds when it saturates without finding a refutation
+                SUCCESS_RC if is_satisfiable(&stdout) => Ok(RunnerOut::Sat(stdout)),
                 SUCCESS_RC => Ok(RunnerOut::Unsat(stdout)),
                 TIMEOUT_RC => Ok(RunnerOut::Timeout(stdout)),
                 _ => Self::unexpected_result(cmd, return_code, stdout).no_location(),
-- 
2.43.0


From be9e412333922d83af36d0c3e939b56f3d147a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:08 +0000
Subject: [PATCH 20/46] fix: errors when writing the end of a file were ignored

---
 crates/cryptovampire/src/lib.rs           | 4 +++-
 crates/cryptovampire/src/runner/runner.rs | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/lib.rs b/crates/cryptovampire/src/lib.rs
index 89e3320..931d8c8 100644
--- a/crates/cryptovampire/src/lib.rs
+++ b/crates/cryptovampire/src/lib.rs
@@ -178,9 +178,11 @@ fn save_to_file<'bump>(
         .truncate(true) // overwrite
         .create(true) // create if necessary
         .open(path)?;
+    let mut writer = BufWriter::new(file);
     SmtFile::from_general_file(env, pbl.into_general_file(env)) // gen smt
         .as_diplay(env)
-        .write_to_io(&mut BufWriter::new(file))?;
+        .write_to_io(&mut writer)?;
+    writer.flush()?; // dropping the buffer would ignore the errors
     Ok(())
 }
 
diff --git a/crates/cryptovampire/src/runner/runner.rs b/crates/cryptovampire/src/runner/runner.rs
index f86fb30..8855aab 100644
--- a/crates/cryptovampire/src/runner/runner.rs
+++ b/crates/cryptovampire/src/runner/runner.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::BufWriter,
+    io::{BufWriter, Write},
     path::{Path, PathBuf},
     process::Command,
     sync::Arc,
@@ -196,7 +196,11 @@ pub trait Runner {
     {
         trace!("start {}", Self::name());
         let mut file = build_file::<Self>(save_to)?;
-        self.write(env, pbl, &mut BufWriter::new(&mut file))?; // write to it
+        {
+            let mut writer = BufWriter::new(&mut file);
+            self.write(env, pbl, &mut writer)?; // write to it
+            writer.flush()?; // dropping the buffer would ignore the errors
+        }
         let file = file; // deactivate mutation
         let path = file.path();
         info!("running {} to {:?}.", Self::name(), path);
-- 
2.43.0


From d90de1fddfe427eec08c663d603df2feccb67284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:08 +0000
Subject: [PATCH 21/46] fix: z3 rejected timeouts that are not a whole number
 of seconds

---
 crates/cryptovampire/src/runner/runners.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/runner/runners.rs b/crates/cryptovampire/src/runner/runners.rs
index 87e3954..1ec5757 100644
--- a/crates/cryptovampire/src/runner/runners.rs
+++ b/crates/cryptovampire/src/runner/runners.rs
@@ -131,7 +131,8 @@ impl TryFrom<SolverConfig> for Runners {
         };
         let z3 = z3.map(|location| Z3Runner {
             location,
-            extra_args: vec![format!("-T:{timeout:}")],
+            // z3 only takes whole seconds
+            extra_args: vec![format!("-T:{:}", timeout.ceil())],
         });
 
         let cvc5 = None;
-- 
2.43.0


From 280ae5aba9d5dfdf4f0d1179129932cfd61bc9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:08 +0000
Subject: [PATCH 22/46] fix: failures were not reported at all in quiet mode

---
 crates/cryptovampire/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/main.rs b/crates/cryptovampire/src/main.rs
index 842386d..d86007b 100644
--- a/crates/cryptovampire/src/main.rs
+++ b/crates/cryptovampire/src/main.rs
@@ -43,7 +43,11 @@ fn main() {
     };
 
     match output_format {
-        cryptovampire::cli::Output::Quiet => (),
+        cryptovampire::cli::Output::Quiet => {
+            if res.is_err() {
+                std::process::exit(1)
+            }
+        }
         cryptovampire::cli::Output::Stdout => {
             let res = res.unwrap();
             eprintln!("{res}")
-- 
2.43.0


From d5b7aeef022be5a630bec4e14ab7be5ae9737f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:08 +0000
Subject: [PATCH 23/46] fix: pretty-json output was not pretty

---
 crates/cryptovampire/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/main.rs b/crates/cryptovampire/src/main.rs
index d86007b..f63fe8b 100644
--- a/crates/cryptovampire/src/main.rs
+++ b/crates/cryptovampire/src/main.rs
@@ -58,7 +58,7 @@ fn main() {
         }
         cryptovampire::cli::Output::PrettyJSON => {
             let res = res.map_err(|e| format!("{e:}"));
-            println!("{}", serde_json::to_string(&res).unwrap())
+            println!("{}", serde_json::to_string_pretty(&res).unwrap())
         }
     }
 
-- 
2.43.0


From 83f07af5a3db5b014845fd19d1def6363c7257c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:08 +0000
Subject: [PATCH 24/46] fix: --disallow-shadowing was ignored when running the
 solvers

---
 crates/cryptovampire/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/cli.rs b/crates/cryptovampire/src/cli.rs
index df5b95d..6e9f412 100644
--- a/crates/cryptovampire/src/cli.rs
+++ b/crates/cryptovampire/src/cli.rs
@@ -316,6 +316,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
             *legacy_evaluate => Flags::LEGACY_EVALUATE,
             *skolemnise => Flags::SKOLEMNISE,
             *no_bitstring && realm.is_symbolic() => Flags::NO_BITSTRING,
+            *disallow_shadowing => Flags::DISALLOW_SHADOWING,
             // *ignore_lemmas => Flags::IGNORE_LEMMAS
         );
 
@@ -354,8 +355,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
                 flags |= mk_bitflag!(
                     *lemmas => Flags::LEMMA,
                     *assert_theory=> Flags::ASSERT_THEORY,
-                    *assert_ground => Flags::ASSERT_GROUND,
-                    *disallow_shadowing => Flags::DISALLOW_SHADOWING
+                    *assert_ground => Flags::ASSERT_GROUND
                 );
                 if *cvc5 {
                     flags -= Flags::ASSERT_GROUND | Flags::ASSERT_NOT | Flags::ASSERT_THEORY;
-- 
2.43.0


From bba8a5a6b38d3c3a33f74f2c021ca06dffd53b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:50 +0000
Subject: [PATCH 25/46] fix: quote the names that aren't simple SMT-LIB symbols

---
 crates/cryptovampire/src/smt/smt/display.rs | 73 +++++++++++++++------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/crates/cryptovampire/src/smt/smt/display.rs b/crates/cryptovampire/src/smt/smt/display.rs
index 7cdafb6..8038e86 100644
--- a/crates/cryptovampire/src/smt/smt/display.rs
+++ b/crates/cryptovampire/src/smt/smt/display.rs
@@ -69,6 +69,24 @@ impl<D, T> Deref for SmtDisplayer<D, T> {
     }
 }
 
+/// Prints a symbol, quoting it when it isn't a simple SMT-LIB symbol (e.g., `a'`)
+struct Symbol<S>(S);
+
+impl<S: AsRef<str>> fmt::Display for Symbol<S> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let name = self.0.as_ref();
+        let is_simple = !name.starts_with(|c: char| c.is_ascii_digit())
+            && name
+                .chars()
+                .all(|c| c.is_ascii_alphanumeric() || "~!@$%^&*_-+=<>.?/".contains(c));
+        if is_simple {
+            write!(f, "{name}")
+        } else {
+            write!(f, "|{name}|")
+        }
+    }
+}
+
 macro_rules! generate_diplay {
     ($t:ident) => {
         impl<'bump> fmt::Display for SmtDisplayer<SmtEnv, $t<'bump>> {
@@ -114,20 +132,20 @@ generate_diplay!(SmtFormula);
 impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self.content {
-            SmtFormula::Var(v) => v.fmt(f),
+            SmtFormula::Var(v) => write!(f, "{}", Symbol(v.to_string())),
             SmtFormula::Fun(fun, args) if fun.is_no_op(&self.env) => {
                 assert_eq!(args.len(), 1);
                 args[0].prop(*self).fmt(f)
             }
             SmtFormula::Fun(fun, args) => {
                 if !args.is_empty() {
-                    write!(f, "({} ", fun.name())?;
+                    write!(f, "({} ", Symbol(fun.name()))?;
                     for arg in args {
                         write!(f, "{} ", self.propagate(arg))?;
                     }
                     write!(f, ")")
                 } else {
-                    write!(f, "{} ", fun.name())
+                    write!(f, "{} ", Symbol(fun.name()))
                 }
             }
             SmtFormula::Forall(vars, formula) | SmtFormula::Exists(vars, formula)
@@ -138,14 +156,14 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>>
             SmtFormula::Forall(vars, formula) => {
                 write!(f, "(forall (")?;
                 for v in vars.iter() {
-                    write!(f, "({} {}) ", v, v.sort)?;
+                    write!(f, "({} {}) ", Symbol(v.to_string()), Symbol(v.sort.name()))?;
                 }
                 write!(f, ") {})", formula.prop(*self))
             }
             SmtFormula::Exists(vars, formula) => {
                 write!(f, "(exists (")?;
                 for v in vars.iter() {
-                    write!(f, "({} {}) ", v, v.sort)?;
+                    write!(f, "({} {}) ", Symbol(v.to_string()), Symbol(v.sort.name()))?;
                 }
                 write!(f, ") {})", formula.prop(*self))
             }
@@ -176,7 +194,7 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>>
             SmtFormula::Subterm(fun, a, b) => write!(
                 f,
                 "(subterm {} {} {})",
-                fun.name(),
+                Symbol(fun.name()),
                 a.prop(*self),
                 b.prop(*self),
             ),
@@ -192,26 +210,36 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
             Smt::Assert(e) => writeln!(f, "(assert {})", e.prop(*self)),
             Smt::AssertTh(e) => writeln!(f, "(assert-theory {})", e.prop(*self)),
             Smt::AssertGround { sort, formula } => {
-                writeln!(f, "(assert-ground {sort} {})", formula.prop(*self))
+                writeln!(
+                    f,
+                    "(assert-ground {} {})",
+                    Symbol(sort.name()),
+                    formula.prop(*self)
+                )
             }
             Smt::AssertNot(e) => writeln!(f, "(assert-not {})", e.prop(*self)),
             Smt::DeclareFun(fun) => {
-                write!(f, "(declare-fun {} (", fun.name())?;
+                write!(f, "(declare-fun {} (", Symbol(fun.name()))?;
                 for s in fun.fast_insort().unwrap_or_else(|| {
                     panic!("all function defined here have known sort: {}", fun.name())
                 }) {
-                    write!(f, "{} ", s.name())?;
+                    write!(f, "{} ", Symbol(s.name()))?;
                 }
-                writeln!(f, ") {})", fun.fast_outsort().unwrap())
+                writeln!(f, ") {})", Symbol(fun.fast_outsort().unwrap().name()))
             }
-            Smt::DeclareSort(sort) => writeln!(f, "(declare-sort {} 0)", sort),
+            Smt::DeclareSort(sort) => writeln!(f, "(declare-sort {} 0)", Symbol(sort.name())),
             Smt::DeclareSortAlias { from, to } => {
-                writeln!(f, "(define-sort {} () {})", to.name(), from.name())
+                writeln!(
+                    f,
+                    "(define-sort {} () {})",
+                    Symbol(to.name()),
+                    Symbol(from.name())
+                )
             }
             Smt::DeclareSubtermRelation(fun, funs) => {
-                write!(f, "(declare-subterm-relation {} ", fun.name())?;
+                write!(f, "(declare-subterm-relation {} ", Symbol(fun.name()))?;
                 for fun in funs {
-                    write!(f, "{} ", fun.name())?;
+                    write!(f, "{} ", Symbol(fun.name()))?;
                 }
                 writeln!(f, ")")
             }
@@ -223,11 +251,11 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
             } => {
                 write!(f, "(declare-rewrite (forall (")?;
                 for v in vars.iter() {
-                    write!(f, "({} {}) ", v, v.sort)?;
+                    write!(f, "({} {}) ", Symbol(v.to_string()), Symbol(v.sort.name()))?;
                 }
                 let op = match rewrite_fun {
-                    RewriteKind::Bool => "=".into(),
-                    RewriteKind::Other(f) => f.name(),
+                    RewriteKind::Bool => Symbol("=".into()),
+                    RewriteKind::Other(f) => Symbol(f.name()),
                 };
                 writeln!(f, ") ({} {} {})))", op, lhs.prop(*self), rhs.prop(*self))
             }
@@ -236,7 +264,7 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
                 // name of types
                 write!(f, "\t(")?;
                 for s in sorts.iter() {
-                    write!(f, "({} 0) ", s)?;
+                    write!(f, "({} 0) ", Symbol(s.name()))?;
                 }
                 write!(f, ")\n\t(\n")?;
 
@@ -246,10 +274,15 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
                     for c in vc {
                         assert_eq!(sorts[j], c.fun.fast_outsort().unwrap());
 
-                        write!(f, "\t\t\t({} ", c.fun.name())?;
+                        write!(f, "\t\t\t({} ", Symbol(c.fun.name()))?;
 
                         for (i, s) in c.fun.fast_insort().expect("todo").iter().enumerate() {
-                            write!(f, "({} {}) ", c.dest.get(i).unwrap().name(), s)?;
+                            write!(
+                                f,
+                                "({} {}) ",
+                                Symbol(c.dest.get(i).unwrap().name()),
+                                Symbol(s.name())
+                            )?;
                         }
                         writeln!(f, ")")?;
                     }
-- 
2.43.0


From 64723bbf94909d7dc0570660cb90b0c6f95ddf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 26/46] fix: bound variables could capture the user's functions
 (fun iX1)

---
 crates/cryptovampire/src/formula/variable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/variable.rs b/crates/cryptovampire/src/formula/variable.rs
index 7a44c1d..d3caaf3 100644
--- a/crates/cryptovampire/src/formula/variable.rs
+++ b/crates/cryptovampire/src/formula/variable.rs
@@ -23,7 +23,8 @@ pub struct Variable<'bump> {
 }
 impl<'bump> fmt::Display for Variable<'bump> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}X{}", self.sort.short_name(), self.id)
+        // `$` keeps it apart from the identifiers of the user
+        write!(f, "{}$X{}", self.sort.short_name(), self.id)
     }
 }
 
-- 
2.43.0


From c4583a1ed7bb0738a8f056002f1bcca54cb12736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 27/46] fix: words reserved in SMT-LIB (let, as, par,
 lambda...) were accepted as names

---
 crates/cryptovampire/src/parser/mod.rs            | 10 ++++++++++
 crates/cryptovampire/src/parser/parser/declare.rs |  4 +++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/mod.rs b/crates/cryptovampire/src/parser/mod.rs
index fccd695..47b18f4 100644
--- a/crates/cryptovampire/src/parser/mod.rs
+++ b/crates/cryptovampire/src/parser/mod.rs
@@ -49,6 +49,16 @@ pub const USED_KEYWORDS: &[&str] = &[
     "Int",
     "Real",
     "Array",
+    "String",
+    "Bool",
+    "let",
+    "as",
+    "par",
+    "lambda",
+    "distinct",
+    "NUMERAL",
+    "DECIMAL",
+    "STRING",
 ];
 
 // pub type MResult<T> = std::result::Result<T, error::InputError>;
diff --git a/crates/cryptovampire/src/parser/parser/declare.rs b/crates/cryptovampire/src/parser/parser/declare.rs
index 96c6515..5d53fa5 100644
--- a/crates/cryptovampire/src/parser/parser/declare.rs
+++ b/crates/cryptovampire/src/parser/parser/declare.rs
@@ -47,7 +47,9 @@ where
         })
         .try_for_each(|s| {
             let name = s.name();
-            if env.sort_hash.contains_key(name.borrow()) {
+            if env.sort_hash.contains_key(name.borrow())
+                || env.used_name.contains::<str>(name.borrow())
+            {
                 // err(merr(
                 //     *s.get_name_span(),
                 //     f!("the sort name {} is already in use", name),
-- 
2.43.0


From 0614cd333ebaa079d9a9562383a3fea7d1c8f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:34 +0000
Subject: [PATCH 28/46] fix: int-ctxt was assumed for encryptions whose
 randomness is shared or isn't a name

---
 .../problem/crypto_assumptions/int_ctxt.rs    | 97 +++++++++++++------
 1 file changed, 67 insertions(+), 30 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 02afe18..5dc0679 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -1,7 +1,7 @@
 use std::{collections::BTreeSet, hash::Hash, sync::Arc};
 
 use if_chain::if_chain;
-use itertools::Itertools;
+use itertools::{iproduct, Itertools};
 use log::trace;
 use logic_formula::iterators::AllTermsIterator;
 
@@ -12,7 +12,7 @@ use crate::subterm::{
     into_exist_formula,
     kind::SubtermKindConstr,
     traits::{DefaultAuxSubterm, SubtermAux, VarSubtermResult},
-    Subterm,
+    FormlAndVars, Subterm,
 };
 use crate::{
     environement::{environement::Environement, traits::KnowsRealm},
@@ -21,12 +21,13 @@ use crate::{
         formula::{ands, forall, meq, ARichFormula, RichFormula},
         function::{builtin::TRUE, Function},
         function::{inner::subterm::Subsubterm, name_caster_collection::NameCasterCollection},
-        manipulation::Unifier,
         sort::{
             builtins::{CONDITION, MESSAGE, NAME},
             Sort,
         },
-        utils::formula_expander::UnfoldFlags,
+        utils::formula_expander::{
+            UnfoldFlags, UnfolderBuilder, UnfoldingState, UnfoldingStateBuilder,
+        },
         variable::Variable,
     },
     mexists, mforall,
@@ -233,9 +234,8 @@ impl<'bump> IntCtxt<'bump> {
 
         // term of the for enc(_, nonce(_), _)
         // with variables unchanged
-        let candidates_enc = pbl
-            .list_top_level_terms()
-            // .flat_map(move |f| f.iter()) // sad...
+        let candidates_enc = list_all_terms(pbl)
+            .iter()
             .filter_map(|formula| match formula.as_ref() {
                 RichFormula::Fun(fun, args) => {
                     if fun == &self.enc {
@@ -326,9 +326,7 @@ impl<'bump> IntCtxt<'bump> {
                         // ensure r is well used
                         // the candidate with the right key (message, rand, unifier_key)
                         #[allow(clippy::needless_borrow)]
-                        let candidates_enc = candidates_enc
-                            .iter()
-                            .tuple_combinations::<(_, _)>()
+                        let candidates_enc = iproduct!(&candidates_enc, &candidates_enc)
                             .filter_map(
                                 |(
                                     IntCtxtEncCandidates {
@@ -342,26 +340,22 @@ impl<'bump> IntCtxt<'bump> {
                                         key: k2,
                                     },
                                 )| {
-                                    fn unify<'bump>(
-                                        a: &ARichFormula<'bump>,
-                                        b: &ARichFormula<'bump>,
-                                    ) -> Option<Vec<ARichFormula<'bump>>>
-                                    {
-                                        Unifier::mgu(a, b).map(|u| {
-                                            u.as_equalities()
-                                                .unwrap_or(vec![TRUE.clone().into_arc()])
-                                        })
+                                    if_chain! {
+                                        // different names are never equal
+                                        if let RichFormula::Fun(f1, _) = r1.as_ref();
+                                        if let RichFormula::Fun(f2, _) = r2.as_ref();
+                                        if f1 != f2 && f1.is_always_datatype() && f2.is_always_datatype();
+                                        then { return None }
                                     }
-                                    let unifier_k = unify(&k_f, &k1)?;
-
-                                    let r2 = r2.translate_vars(max_var).into_arc();
-                                    let unfier_r = unify(&r1, &r2)?;
 
-                                    let k2 = k2.translate_vars(max_var).into_arc();
-                                    let unifier_k12 = unify(&k1, &k2)?;
-
-                                    let m2 = m2.translate_vars(max_var).into_arc();
-                                    let unifier_m = unify(&m1, &m2)?;
+                                    // the variables of both uses are independent
+                                    let max_var = [r1, m1, k1, r2, m2, k2]
+                                        .into_iter()
+                                        .max_var_or_max(max_var);
+                                    let [r1, m1, k1] = [r1, m1, k1]
+                                        .map(|f| f.translate_vars(max_var).into_arc());
+                                    let [r2, m2, k2] = [r2, m2, k2]
+                                        .map(|f| f.translate_vars(2 * max_var).into_arc());
 
                                     let free_vars = BTreeSet::from_iter(
                                         [&r1, &m1, &k1, &r2, &m2, &k2]
@@ -371,8 +365,8 @@ impl<'bump> IntCtxt<'bump> {
 
                                     Some(forall(
                                         free_vars,
-                                        ands(itertools::chain!(unfier_r, unifier_k,))
-                                            >> ands(itertools::chain!(unifier_k12, unifier_m)),
+                                        (meq(k_f.clone(), k1.clone()) & meq(r1, r2))
+                                            >> (meq(k1, k2) & meq(m1, m2)),
                                     ))
                                 },
                             );
@@ -423,6 +417,49 @@ impl<'bump> IntCtxt<'bump> {
     }
 }
 
+/// Every term of the protocol, including those below quantifiers and `find`s
+fn list_all_terms<'bump>(pbl: &Problem<'bump>) -> Vec<ARichFormula<'bump>> {
+    let ptcl = pbl.protocol();
+    let unfold = |state: UnfoldingState<'bump>, content: ARichFormula<'bump>| {
+        UnfolderBuilder::default()
+            .state(state)
+            .content(content)
+            .build()
+            .unwrap()
+            .unfold(ptcl.steps().iter().cloned(), ptcl.graph())
+    };
+
+    let mut pile = ptcl
+        .list_top_level_terms_short_lifetime_and_bvars()
+        .map(
+            |FormlAndVars {
+                 bounded_variables,
+                 formula,
+             }| {
+                let state = UnfoldingStateBuilder::default()
+                    .flags(UnfoldFlags::UNFOLD_TA_QUANTIFIER)
+                    .bound_variables(bounded_variables)
+                    .build()
+                    .unwrap();
+                (formula, state)
+            },
+        )
+        .collect_vec();
+    let mut all_terms = Vec::new();
+    while let Some((formula, state)) = pile.pop() {
+        if let RichFormula::Fun(_, args) = formula.as_ref() {
+            pile.extend(args.iter().map(|f| (f.clone(), state.clone())))
+        }
+        pile.extend(
+            unfold(state, formula.clone())
+                .into_iter()
+                .map(|u| u.as_tuple()),
+        );
+        all_terms.push(formula)
+    }
+    all_terms
+}
+
 fn define_subterms<'bump>(
     env: &Environement<'bump>,
     pbl: &Problem<'bump>,
-- 
2.43.0


From 2a5101fe5bff4d3d6b1e2cb568d2d5ae651f9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:23 +0000
Subject: [PATCH 29/46] fix: the general unforgeability axioms (--symbolic)
 took the signature for the message

---
 crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs | 2 +-
 crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
index 0cd36f9..0c2aed5 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
@@ -135,7 +135,7 @@ impl<'bump> EufCma<'bump> {
                 formula: mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.apply([m.into(), sigma.into(), self.pk.f([ k_f.clone()])])) >>
+                    ev.eval(self.verify.apply([sigma.into(), m.into(), self.pk.f([ k_f.clone()])])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
index 34c73cd..2b5e8a0 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
@@ -170,7 +170,7 @@ impl<'bump> UfCma<'bump> {
                 formula : mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.f([m.into(), sigma.into(), k_f.clone()])) >>
+                    ev.eval(self.verify.f([sigma.into(), m.into(), k_f.clone()])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
-- 
2.43.0


From 2e2c0d651d1e172423b248d88e7d20f4a7e5c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:17 +0000
Subject: [PATCH 30/46] fix: == between terms of different sorts was accepted
 and gave ill-sorted files

---
 crates/cryptovampire/src/formula/function/inner/booleans.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/formula/function/inner/booleans.rs b/crates/cryptovampire/src/formula/function/inner/booleans.rs
index 11c0781..74d0142 100644
--- a/crates/cryptovampire/src/formula/function/inner/booleans.rs
+++ b/crates/cryptovampire/src/formula/function/inner/booleans.rs
@@ -214,8 +214,8 @@ mod signatures {
 
     #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
     pub struct EqualitySignature<'bump> {
-        left: SortProxy<'bump>,
-        right: SortProxy<'bump>,
+        /// both sides have the same sort
+        side: SortProxy<'bump>,
     }
 
     impl<'bump> Signature<'bump> for EqualitySignature<'bump> {
@@ -234,7 +234,7 @@ mod signatures {
         where
             'bump: 'a,
         {
-            [&self.left, &self.right].map(Clone::clone)
+            [self.side.clone(), self.side.clone()]
         }
 
         fn fast(self) -> Option<Self::FxSign> {
-- 
2.43.0


From 51db391b5a200001e3c483c28967e1ffc88343a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:03 +0000
Subject: [PATCH 31/46] fix: functions named evaluate_msg, evaluate_cond or xor
 were declared twice in the output

---
 crates/cryptovampire/src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/cryptovampire/src/parser/mod.rs b/crates/cryptovampire/src/parser/mod.rs
index 47b18f4..2398678 100644
--- a/crates/cryptovampire/src/parser/mod.rs
+++ b/crates/cryptovampire/src/parser/mod.rs
@@ -59,6 +59,10 @@ pub const USED_KEYWORDS: &[&str] = &[
     "NUMERAL",
     "DECIMAL",
     "STRING",
+    "xor",
+    // declared by the tool itself
+    "evaluate_msg",
+    "evaluate_cond",
 ];
 
 // pub type MResult<T> = std::result::Result<T, error::InputError>;
-- 
2.43.0


From 9e9ea6051ca986533fcd96a64f7db4c56829de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:32 +0000
Subject: [PATCH 32/46] fix: --disallow-shadowing did not look at the
 parameters of steps and macros

---
 .../src/parser/parser/declare.rs              | 25 ++++++++++++++
 crates/cryptovampire/src/parser/parser/mod.rs |  2 +-
 .../src/parser/parser/parsable_trait.rs       | 34 ++++++++++++++-----
 .../src/parser/parser/parsing_environement.rs |  3 +-
 4 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/declare.rs b/crates/cryptovampire/src/parser/parser/declare.rs
index 5d53fa5..0f58413 100644
--- a/crates/cryptovampire/src/parser/parser/declare.rs
+++ b/crates/cryptovampire/src/parser/parser/declare.rs
@@ -345,3 +345,28 @@ where
         Ok(())
     }
 }
+
+/// The parameters of steps and macros are variables like any other
+///
+/// To be called once all the symbols are known
+pub fn check_parameters<'str, 'bump, S>(
+    env: &Environement<'bump, 'str, S>,
+    ast: &'str ASTList<'str, S>,
+) -> crate::Unit
+where
+    S: Pstr,
+    for<'a> StrRef<'a>: From<&'a S>,
+{
+    ast.into_iter()
+        .filter_map(|ast| match ast {
+            AST::Step(step) => Some(&step.args),
+            AST::Let(mlet) => Some(&mlet.args),
+            _ => None,
+        })
+        .try_for_each(|args| {
+            args.bindings.iter().enumerate().try_for_each(|(i, b)| {
+                let previous = args.bindings[..i].iter().map(|b| b.variable.name());
+                parsable_trait::check_shadowing(env, &b.variable, previous)
+            })
+        })
+}
diff --git a/crates/cryptovampire/src/parser/parser/mod.rs b/crates/cryptovampire/src/parser/parser/mod.rs
index 2e6d44f..d448265 100644
--- a/crates/cryptovampire/src/parser/parser/mod.rs
+++ b/crates/cryptovampire/src/parser/parser/mod.rs
@@ -3,7 +3,7 @@ pub mod parsable_trait;
 pub mod state;
 
 mod declare;
-pub use declare::{declare_sorts, fetch_all};
+pub use declare::{check_parameters, declare_sorts, fetch_all};
 
 mod parsing_environement;
 pub use parsing_environement::{
diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index c253f2b..b9565a5 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -260,6 +260,30 @@ where
         })
     }
 }
+
+/// Check whether a new `variable` may be introduced when those in `taken` are in
+/// scope
+pub fn check_shadowing<'b, 'a, 'bump, S>(
+    env: &Environement<'bump, 'a, S>,
+    variable: &ast::Variable<'a, S>,
+    taken: impl IntoIterator<Item = &'b S>,
+) -> crate::Unit
+where
+    S: Pstr + 'b,
+    for<'c> StrRef<'c>: From<&'c S>,
+{
+    if env.functions.contains_key(variable.name().borrow())
+        || taken.into_iter().contains(variable.name())
+    {
+        if env.allow_shadowing() {
+            warn!("the name {} is already taken, shadowing", variable.name())
+        } else {
+            crate::bail_at!(variable, "the name {} is already taken", variable.name())
+        }
+    }
+    Ok(())
+}
+
 impl<'a, 'bump, S> Parsable<'bump, 'a> for ast::VariableBinding<'a, S>
 where
     S: Pstr,
@@ -281,15 +305,7 @@ where
             ..
         } = self;
 
-        if env.functions.contains_key(variable.name().borrow())
-            || bvars.iter().map(|(n, _)| n).contains(&variable.name())
-        {
-            if env.allow_shadowing() {
-                warn!("the name {} is already taken, shadowing", variable.name())
-            } else {
-                crate::bail_at!(variable, "the name {} is already taken", variable.name())
-            }
-        }
+        check_shadowing(env, variable, bvars.iter().map(|(n, _)| n))?;
         let SnN { span, name } = type_name.into();
         let sort = get_sort(env, span, name)?;
 
diff --git a/crates/cryptovampire/src/parser/parser/parsing_environement.rs b/crates/cryptovampire/src/parser/parser/parsing_environement.rs
index 9aef2f6..092bbb4 100644
--- a/crates/cryptovampire/src/parser/parser/parsing_environement.rs
+++ b/crates/cryptovampire/src/parser/parser/parsing_environement.rs
@@ -50,7 +50,7 @@ pub struct Macro<'bump, 'str, S> {
 pub use cache::{CellCache, FunctionCache, StepCache};
 
 use super::{
-    declare_sorts, fetch_all,
+    check_parameters, declare_sorts, fetch_all,
     parsable_trait::{
         FALSE_CACHE, FALSE_TA_CACHE, NOT_CACHE, NOT_TA_CACHE, TRUE_CACHE, TRUE_TA_CACHE,
     },
@@ -327,6 +327,7 @@ where
         &mut orders,
         &mut asserts_crypto,
     )?;
+    check_parameters(&env, ast)?;
     trace!("[P] \t[DONE]");
 
     trace!("[P] \t- parse steps...");
-- 
2.43.0


From 53b6ca9319b3c44975fe1629952f12685ec2b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:39 +0000
Subject: [PATCH 33/46] fix: the variables of an assignment could not shadow
 the parameters of the step

---
 .../parser/parse_step_cell_asserts/step.rs    | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
index 8e35bd1..55d5628 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/step.rs
@@ -14,9 +14,12 @@ use crate::{
 };
 use crate::{
     bail_at,
-    error::{BaseContext, BaseError, CVContext, ExtraOption},
+    error::{BaseContext, ExtraOption},
     parser::{
-        parser::{parsable_trait::Parsable, CellCache, FunctionCache},
+        parser::{
+            parsable_trait::{check_shadowing, Parsable},
+            CellCache, FunctionCache,
+        },
         Pstr,
     },
 };
@@ -117,16 +120,9 @@ where
                             let id = from_usize(n) + i;
                             let var = Variable { id, sort };
 
-                            if env.contains_name_with_var(
-                                variable.name().borrow(),
-                                bvars.iter().map(|(n, _)| n.borrow()),
-                            ) {
-                                BaseError::duplicate_symbol(&"name", variable)
-                                    .with_location(variable)
-                            } else {
-                                bvars.push((variable.name().clone(), var.into()));
-                                Ok(var)
-                            }
+                            check_shadowing(env, variable, bvars.iter().map(|(n, _)| n))?;
+                            bvars.push((variable.name().clone(), var.into()));
+                            Ok(var)
                         },
                     )
                     .collect();
-- 
2.43.0


From 26838cf0d22be9e2b5affac1c2c8e58f2336ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:30 +0000
Subject: [PATCH 34/46] fix: a macro, or a step, defined in terms of itself
 overflowed the stack

---
 .../src/parser/parser/parsable_trait.rs       | 22 +++++++++-------
 .../src/parser/parser/parsing_environement.rs | 25 ++++++++++++++++++-
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index b9565a5..1d318c1 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -649,14 +649,16 @@ where
                     (v.name, Variable { id, ..variable }.into())
                 }));
 
-                let (to_parse, _) = match inner {
-                    ast::InnerAppMacro::Msg(_) => (&step_cache.ast.message, MESSAGE.as_sort()),
-                    ast::InnerAppMacro::Cond(_) => (&step_cache.ast.condition, CONDITION.as_sort()),
+                let (to_parse, macro_name) = match inner {
+                    ast::InnerAppMacro::Msg(_) => (&step_cache.ast.message, "msg"),
+                    ast::InnerAppMacro::Cond(_) => (&step_cache.ast.condition, "cond"),
                     _ => unreachable!(),
                 };
 
-                let term = to_parse
-                    .parse(env, &mut nbvars, state, expected_sort)
+                let term = env
+                    .expand_macro(main_span, format!("{macro_name}!({})", app.name()), || {
+                        to_parse.parse(env, &mut nbvars, state, expected_sort)
+                    })
                     .debug_continue()?;
 
                 Ok(term
@@ -719,10 +721,12 @@ where
                                 (var_name.clone(), Variable::new(id, *var_sort).into())
                             }),
                     );
-                    mmacro
-                        .content
-                        .parse(env, &mut bvars, state, expected_sort)
-                        .debug_continue()
+                    env.expand_macro(main_span, format!("{}!", name.name()), || {
+                        mmacro
+                            .content
+                            .parse(env, &mut bvars, state, expected_sort)
+                    })
+                    .debug_continue()
                 }?;
 
                 Ok(term
diff --git a/crates/cryptovampire/src/parser/parser/parsing_environement.rs b/crates/cryptovampire/src/parser/parser/parsing_environement.rs
index 092bbb4..c52e4a7 100644
--- a/crates/cryptovampire/src/parser/parser/parsing_environement.rs
+++ b/crates/cryptovampire/src/parser/parser/parsing_environement.rs
@@ -1,10 +1,11 @@
-use std::{borrow::Borrow, collections::VecDeque, ops::Deref, sync::Arc};
+use std::{borrow::Borrow, cell::RefCell, collections::VecDeque, ops::Deref, sync::Arc};
 
 use hashbrown::{HashMap, HashSet};
 use itertools::Itertools;
 use log::trace;
 
 use crate::{
+    bail_at,
     container::ScopedContainer,
     environement::traits::{KnowsRealm, Realm},
     formula::{
@@ -82,6 +83,9 @@ pub struct Environement<'bump, 'str, S> {
 
     pub used_name: HashSet<String>,
     pub allow_shadowing: bool,
+
+    /// The macros being expanded, to find those defined in terms of themselves
+    expanding: RefCell<Vec<String>>,
 }
 
 impl<'bump, 'str, S> MaybeInvalid for Environement<'bump, 'str, S> {
@@ -95,6 +99,7 @@ impl<'bump, 'str, S> MaybeInvalid for Environement<'bump, 'str, S> {
             functions,
             used_name: _,
             allow_shadowing: _,
+            expanding: _,
         } = self;
 
         functions.values().all(|v| match v {
@@ -138,7 +143,25 @@ impl<'bump, 'str, S> Environement<'bump, 'str, S> {
             functions: function_hash,
             used_name: names,
             allow_shadowing,
+            expanding: Default::default(),
+        }
+    }
+
+    /// Runs `f` on the body of the macro `name`, unless `name` is already being
+    /// expanded (in which case this would never end)
+    pub fn expand_macro<R>(
+        &self,
+        span: &ASTLocation<'str>,
+        name: String,
+        f: impl FnOnce() -> crate::Result<R>,
+    ) -> crate::Result<R> {
+        if self.expanding.borrow().contains(&name) {
+            bail_at!(span, "{name} is defined in terms of itself")
         }
+        self.expanding.borrow_mut().push(name);
+        let res = f();
+        self.expanding.borrow_mut().pop();
+        res
     }
 
     pub fn contains_name(&self, name: &str) -> bool {
-- 
2.43.0


From 75848f7491f6c5348f9557bac444b0c71eb6e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:12 +0000
Subject: [PATCH 35/46] fix: with several systems, the problems of a squirrel
 dump were written below each other

---
 crates/cryptovampire/src/squirrel/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/mod.rs b/crates/cryptovampire/src/squirrel/mod.rs
index 57f2491..eef1ed0 100644
--- a/crates/cryptovampire/src/squirrel/mod.rs
+++ b/crates/cryptovampire/src/squirrel/mod.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::{fmt::Display, path::Path};
 
 use converters::convert_squirrel_dump;
 use itertools::Itertools;
@@ -22,6 +22,8 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
     };
     trace!("parsing successful");
 
+    let output_location = args.get_output_location().map(Path::to_path_buf);
+
     trace!("converting to ast");
     convert_squirrel_dump(dump)?
         .into_iter()
@@ -38,9 +40,9 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
                 trace!("runnig the {i}th problem with ast:\n\t{ast}");
             }
 
-            match args.get_mut_output_location() {
-                None => (),
-                Some(location) => *location = location.join(format!("{i}")),
+            match (args.get_mut_output_location(), &output_location) {
+                (Some(location), Some(base)) => *location = base.join(format!("{i}")),
+                _ => (),
             }
             run_from_ast(&args, ast)
         })
-- 
2.43.0


From 41447a6f86ff2dd00926e964b8f26bb41c6b4967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:12 +0000
Subject: [PATCH 36/46] fix: the projections of squirrel's tuples were reversed

---
 .../converters/helper_functions/convertion_functions.rs      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
index 277fdcb..d9f9a0b 100644
--- a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
+++ b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
@@ -294,14 +294,15 @@ pub fn convert_quantifier<'a>(
 /// Convert `squirrel` tuples
 ///
 /// For simplicity and to avoid mutliplying axioms regarding tuples,
-/// we only consider $2$-uple. $n$-uples are translated into nested $2$-uples
+/// we only consider $2$-uple. $n$-uples are translated into nested $2$-uples,
+/// the first element being the outermost
 pub fn convert_tuple<'a>(
     elements: &[json::Term<'a>],
     ctx: Context<'_, 'a>,
 ) -> RAoO<ast::Term<'a, StrRef<'a>>> {
     let empty =
         mdo! { pure ast::Application::new_app(Default::default(),EMPTY_FUN_NAME.into(), []).into()};
-    elements.iter().fold(empty, |acc, t| {
+    elements.iter().rev().fold(empty, |acc, t| {
         let acc = acc?;
         let t = t.convert(ctx)?;
         mdo! {
-- 
2.43.0


From da3be77c583cb215bad2e9c5b54c51ce9d55088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 37/46] fix: squirrel's checksign takes the message first, but
 was translated as if the signature came first

---
 .../helper_functions/convertion_functions.rs  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
index d9f9a0b..c98066a 100644
--- a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
+++ b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
@@ -19,7 +19,7 @@ use crate::{
             self,
             action::ActionName,
             mmacro::{self, MacroNameRef},
-            operator::OperatorName,
+            operator::{self, OperatorName},
             NameName,
         },
         Sanitizable,
@@ -72,7 +72,20 @@ where
     N: Equivalent<NameName<'a>> + std::hash::Hash + Sanitizable<'a>,
     O: Equivalent<OperatorName<'a>> + std::hash::Hash + Sanitizable<'a>,
 {
-    let args: Vec<_> = if_chain! {
+    // `squirrel` has `checksign(message, signature, key)`
+    let is_checksign = match symb {
+        Either::Right(op) => ctx.dump().get_operator(op).is_some_and(|op| {
+            matches!(
+                op.def(),
+                operator::Def::Abstract {
+                    abstract_def: operator::AbstractDef::CheckSign,
+                    ..
+                }
+            )
+        }),
+        Either::Left(_) => false,
+    };
+    let mut args: Vec<_> = if_chain! {
         if let Some(f) = ctx.dump().get_name_or_operator_fun_type(symb);
         let args_type = f.args.as_slice();
         if args_type.len() == 1;
@@ -84,6 +97,10 @@ where
     .iter()
     .map(|arg| arg.convert(ctx))
     .try_collect()?;
+    if is_checksign && args.len() == 3 {
+        // while the signature comes first here
+        args.swap(0, 1);
+    }
     let symb = match_as_trait!(symb => {Either::Left(x) | Either::Right(x) => {x.sanitized(&ctx)}});
     // let op = Operation::get_operation(symb.as_str());
     mdo! {
-- 
2.43.0


From 79e743eb34d66e7c804a3f155d707ffc004a511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 38/46] fix: the inputs of squirrel's global macros were those
 of the wrong actions

---
 .../src/squirrel/converters/ast_convertion.rs | 24 ++++++++++++-------
 .../cryptovampire/src/squirrel/json/mmacro.rs |  5 ++--
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
index 2ef5478..2224b4d 100644
--- a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
+++ b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
@@ -153,17 +153,18 @@ impl<'a> ToAst<'a> for json::Action<'a> {
             .build()
             .unwrap();
 
-        let fst_global_macro = globals
+        // the one that knows about the most inputs
+        let global_macro = globals
             .iter()
             .filter_map(|symb| {
                 // FIXME: better deal with the option
                 ctx.dump().get_macro(symb)
             })
-            .next();
+            .max_by_key(|g| g.all_inputs().count());
 
         mdo! {
-            let! message = self.prepare_term(output.term(), fst_global_macro, ctx);
-            let! condition = self.prepare_term(condition.term(), fst_global_macro, ctx);
+            let! message = self.prepare_term(output.term(), global_macro, ctx);
+            let! condition = self.prepare_term(condition.term(), global_macro, ctx);
             let! assignements = Ok(AoOV::transpose_iter(assignements.clone()));
             let! args = Ok(AoOV::transpose_iter(args.clone()));
             pure ast::Step {
@@ -181,22 +182,27 @@ impl<'a> ToAst<'a> for json::Action<'a> {
 
 impl<'a> json::Action<'a> {
     /// This adds `let..in` in from of a term so that the global macros may be properly defined
+    ///
+    /// The inputs of a global macro are listed from the most recent one, with one
+    /// entry (possibly a dummy) for each element of [Self::action].
     fn prepare_term<'b>(
         &self,
         term: &json::Term<'a>,
-        fst_global_macro: Option<&mmacro::Data<'a>>,
+        global_macro: Option<&mmacro::Data<'a>>,
         ctx: Context<'b, 'a>,
     ) -> RAoO<ast::Term<'a, StrRef<'a>>> {
         let output = term.convert(ctx).bind(|term| {
-            fst_global_macro
+            global_macro
                 .iter()
-                .flat_map(|g| g.inputs().rev().enumerate())
+                .flat_map(|g| g.all_inputs().rev().enumerate())
+                .filter(|(_, v)| !v.is_dummy())
                 .map(|(i, v)| {
+                    let prefix = self.action.get(..=i).unwrap_or(&self.action);
                     let a = ctx
                         .dump()
-                        .get_action_from_action_v(&self.action[0..i])
+                        .get_action_from_action_v(prefix)
                         .ok_or_else(|| {
-                            let actions = self.action[0..i]
+                            let actions = prefix
                                 .iter()
                                 .map(serde_json::to_string_pretty)
                                 .map(Result::unwrap)
diff --git a/crates/cryptovampire/src/squirrel/json/mmacro.rs b/crates/cryptovampire/src/squirrel/json/mmacro.rs
index 3016d17..02dbb2d 100644
--- a/crates/cryptovampire/src/squirrel/json/mmacro.rs
+++ b/crates/cryptovampire/src/squirrel/json/mmacro.rs
@@ -11,9 +11,10 @@ pub enum Data<'a> {
 }
 
 impl<'a> Data<'a> {
-    pub fn inputs<'b>(&'b self) -> impl DoubleEndedIterator<Item = &'b Variable<'a>> {
+    /// The inputs of a global macro, including the dummies
+    pub fn all_inputs<'b>(&'b self) -> impl DoubleEndedIterator<Item = &'b Variable<'a>> {
         match self {
-            Data::Global(gm) => Some(gm.inputs()),
+            Data::Global(gm) => Some(gm.data.inputs.iter()),
             _ => None,
         }
         .into_iter()
-- 
2.43.0


From 3c094e8398b7895b1ffdde1428b94e6654b8695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 39/46] fix: squirrel's <=> became an equality of messages, so
 the dumps that use it were refused

---
 crates/cryptovampire/src/squirrel/converters/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/mod.rs b/crates/cryptovampire/src/squirrel/converters/mod.rs
index a622c5f..4d47fc3 100644
--- a/crates/cryptovampire/src/squirrel/converters/mod.rs
+++ b/crates/cryptovampire/src/squirrel/converters/mod.rs
@@ -39,7 +39,7 @@ static REMMAPPED_FUNCTION: HashMap<&'static str, StrRef<'static>> = {
         ("and", AND.name()),
         ("||", OR.name()),
         ("or", OR.name()),
-        ("<=>", EQUALITY.name()),
+        ("<=>", "<=>".into()),
         ("=>", IMPLIES.name()),
         ("=", EQUALITY.name()),
         ("<>", "!=".into()),
-- 
2.43.0


From 446ded60f21c5715d043347f2d41ef4d8ac76f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:35 +0000
Subject: [PATCH 40/46] fix: distinct variables of a squirrel dump that have
 the same name were confused

---
 .../src/squirrel/converters/ast_convertion.rs | 25 ++++++++---------
 .../src/squirrel/converters/convert_order.rs  | 25 ++++++++---------
 .../cryptovampire/src/squirrel/json/action.rs | 27 ++++++++++++-------
 crates/cryptovampire/src/squirrel/json/mod.rs | 22 ++++++++-------
 .../src/squirrel/json/squirrel_dump.rs        |  8 +++---
 5 files changed, 60 insertions(+), 47 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
index 2224b4d..37425e1 100644
--- a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
+++ b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
@@ -14,7 +14,7 @@ use crate::{
     squirrel::{
         converters::ContextBuilder,
         json::{
-            self, mmacro,
+            self,
             operator::{OperatorName, OperatorNameRef},
             NameNameRef,
         },
@@ -153,18 +153,21 @@ impl<'a> ToAst<'a> for json::Action<'a> {
             .build()
             .unwrap();
 
-        // the one that knows about the most inputs
-        let global_macro = globals
+        // the inputs the global macros know about, with their position
+        let inputs = globals
             .iter()
             .filter_map(|symb| {
                 // FIXME: better deal with the option
                 ctx.dump().get_macro(symb)
             })
-            .max_by_key(|g| g.all_inputs().count());
+            .flat_map(|g| g.all_inputs().rev().enumerate())
+            .filter(|(_, v)| !v.is_dummy())
+            .unique()
+            .collect_vec();
 
         mdo! {
-            let! message = self.prepare_term(output.term(), global_macro, ctx);
-            let! condition = self.prepare_term(condition.term(), global_macro, ctx);
+            let! message = self.prepare_term(output.term(), &inputs, ctx);
+            let! condition = self.prepare_term(condition.term(), &inputs, ctx);
             let! assignements = Ok(AoOV::transpose_iter(assignements.clone()));
             let! args = Ok(AoOV::transpose_iter(args.clone()));
             pure ast::Step {
@@ -188,15 +191,13 @@ impl<'a> json::Action<'a> {
     fn prepare_term<'b>(
         &self,
         term: &json::Term<'a>,
-        global_macro: Option<&mmacro::Data<'a>>,
+        inputs: &[(usize, &json::Variable<'a>)],
         ctx: Context<'b, 'a>,
     ) -> RAoO<ast::Term<'a, StrRef<'a>>> {
         let output = term.convert(ctx).bind(|term| {
-            global_macro
+            inputs
                 .iter()
-                .flat_map(|g| g.all_inputs().rev().enumerate())
-                .filter(|(_, v)| !v.is_dummy())
-                .map(|(i, v)| {
+                .map(|&(i, v)| {
                     let prefix = self.action.get(..=i).unwrap_or(&self.action);
                     let a = ctx
                         .dump()
@@ -216,7 +217,7 @@ impl<'a> json::Action<'a> {
                         json::Term::Macro {
                             symb: json::path::ISymb::input(),
                             args: vec![],
-                            timestamp: Box::new(a.as_term()),
+                            timestamp: Box::new(a.as_term(prefix)),
                         },
                     ))
                 })
diff --git a/crates/cryptovampire/src/squirrel/converters/convert_order.rs b/crates/cryptovampire/src/squirrel/converters/convert_order.rs
index 5c638a0..8a350a6 100644
--- a/crates/cryptovampire/src/squirrel/converters/convert_order.rs
+++ b/crates/cryptovampire/src/squirrel/converters/convert_order.rs
@@ -92,7 +92,7 @@ fn mk_depends_lemma<'a>(
     b: &json::Action<'a>,
     ctx: Context<'_, 'a>,
 ) -> crate::Result<Option<ast::Order<'a, StrRef<'a>>>> {
-    let cmp = depends(&a.action, &b.action);
+    let cmp = depends(a.shape().as_ref(), b.shape().as_ref());
 
     let (a, b) = match cmp {
         // flip to be in the same order
@@ -105,12 +105,13 @@ fn mk_depends_lemma<'a>(
         bail_at!(@ "{err_msg}")
     }
 
-    let [idx_a, idx_b] = [a, b].map(|x| {
-        x.indices
-            .iter()
-            .map(|v| Application::from(v.sanitized(&ctx)).into())
-            .collect_vec()
-    });
+    // the first indices of `b` are those of `a`
+    let idx_b = b
+        .indices
+        .iter()
+        .map(|v| Application::from(v.sanitized(&ctx)).into())
+        .collect_vec();
+    let idx_a = idx_b[..a.indices.len()].to_vec();
     let args: Vec<_> = b
         .indices
         .iter()
@@ -183,15 +184,15 @@ fn mk_mutex_lemma<'a>(
         let mut names: HashSet<_> = a
             .indices()
             .iter()
-            .map(|v| v.original_name().clone())
+            .map(|v| v.ident().clone())
             .collect();
         others_b.iter().map(move |v| {
             let mut v = v.clone();
-            let oname = v.original_name_mut();
-            while names.contains(oname) {
-                *oname = StrRef::new_owned(format!("{oname}_u")).unwrap();
+            let ident = v.ident_mut();
+            while names.contains(ident) {
+                ident.name = StrRef::new_owned(format!("{}_u", ident.name)).unwrap();
             }
-            names.insert(oname.clone());
+            names.insert(ident.clone());
             v
         })
     }
diff --git a/crates/cryptovampire/src/squirrel/json/action.rs b/crates/cryptovampire/src/squirrel/json/action.rs
index 94b5a53..3efe3db 100644
--- a/crates/cryptovampire/src/squirrel/json/action.rs
+++ b/crates/cryptovampire/src/squirrel/json/action.rs
@@ -79,8 +79,10 @@ pub struct Action<'a> {
 }
 
 impl<'a> Action<'a> {
-    fn get_args<'b>(&'b self) -> impl Iterator<Item = Term<'a>> + 'b {
-        self.action
+    fn get_args<'b>(
+        action: &'b [Item<Vec<Variable<'a>>>],
+    ) -> impl Iterator<Item = Term<'a>> + 'b {
+        action
             .iter()
             .flat_map(
                 |Item {
@@ -91,13 +93,12 @@ impl<'a> Action<'a> {
             .map(|v| Term::Var { var: v.clone() })
     }
 
-    /// This is just magic and I don't like it
-    ///
-    /// FIXME: understand
-    pub fn as_term(&self) -> Term<'a> {
+    /// `self` applied to the indices of `action`, which must have the shape
+    /// of [Self::action]
+    pub fn as_term(&self, action: &[Item<Vec<Variable<'a>>>]) -> Term<'a> {
         Term::Action {
             symb: self.name.clone(),
-            args: self.get_args().collect(),
+            args: Self::get_args(action).collect(),
         }
     }
 
@@ -125,10 +126,10 @@ impl AsRef<AT<usize>> for Shape {
     }
 }
 
-impl<'a> Action<'a> {
-    pub fn shape(&self) -> Shape {
+impl Shape {
+    pub fn new(action: &[Item<Vec<Variable<'_>>>]) -> Self {
         Shape(
-            self.action
+            action
                 .iter()
                 .map(
                     |Item {
@@ -145,4 +146,10 @@ impl<'a> Action<'a> {
         )
     }
 }
+
+impl<'a> Action<'a> {
+    pub fn shape(&self) -> Shape {
+        Shape::new(&self.action)
+    }
+}
 new_name!(ActionName:Step);
diff --git a/crates/cryptovampire/src/squirrel/json/mod.rs b/crates/cryptovampire/src/squirrel/json/mod.rs
index df48f33..3ae32dc 100644
--- a/crates/cryptovampire/src/squirrel/json/mod.rs
+++ b/crates/cryptovampire/src/squirrel/json/mod.rs
@@ -97,8 +97,9 @@ mod term;
 pub struct Ident<'a> {
     #[serde(borrow)]
     pub name: Symb<'a>,
-    // ignored
-    // pub tag: i32,
+    /// distinguishes the identifiers that have the same name
+    #[serde(default)]
+    pub tag: i64,
 }
 
 impl<'a> Ident<'a> {
@@ -109,8 +110,9 @@ impl<'a> Ident<'a> {
 
 impl<'a> Display for Ident<'a> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let Self { name, .. } = self;
-        write!(f, "{name}")
+        let Self { name, tag } = self;
+        // no two identifiers print the same, as a tag only has digits
+        write!(f, "{name}t{tag}")
     }
 }
 
@@ -132,20 +134,20 @@ impl<'a> Variable<'a> {
     }
 
     pub fn is_dummy(&self) -> bool {
-        self.to_str_ref().as_str() == DUMMY_VAR
+        self.id.name.as_str() == DUMMY_VAR
     }
 
-    pub fn original_name_mut(&mut self) -> &mut Symb<'a> {
-        &mut self.id.name
+    pub fn ident_mut(&mut self) -> &mut Ident<'a> {
+        &mut self.id
     }
-    pub fn original_name(&self) -> &Symb<'a> {
-        &self.id.name
+    pub fn ident(&self) -> &Ident<'a> {
+        &self.id
     }
 }
 
 impl<'a> Sanitizable<'a> for Variable<'a> {
     fn to_str_ref(&self) -> StrRef<'a> {
-        self.id.name().drop_guard()
+        self.id.to_string().into()
     }
 
     fn sanitize_kind(&self) -> SanitizeKind {
diff --git a/crates/cryptovampire/src/squirrel/json/squirrel_dump.rs b/crates/cryptovampire/src/squirrel/json/squirrel_dump.rs
index aab2d63..869b48d 100644
--- a/crates/cryptovampire/src/squirrel/json/squirrel_dump.rs
+++ b/crates/cryptovampire/src/squirrel/json/squirrel_dump.rs
@@ -38,7 +38,7 @@ pub struct ProcessedSquirrelDump<'a> {
     hypotheses: Vec<Term<'a>>,
     variables: Vec<Variable<'a>>,
     actions: HashMap<ActionName<'a>, Arc<Action<'a>>>,
-    actions_from_action_v: HashMap<action::ActionV<'a>, Arc<Action<'a>>>,
+    actions_from_action_v: HashMap<action::Shape, Arc<Action<'a>>>,
     names: HashMap<NameName<'a>, FunctionType<'a>>,
     operators: HashMap<OperatorName<'a>, operator::Data<'a>>,
     macros: HashMap<MacroName<'a>, mmacro::Data<'a>>,
@@ -135,7 +135,9 @@ impl<'a> ProcessedSquirrelDump<'a> {
         &self,
         v: &[action::Item<Vec<Variable<'a>>>],
     ) -> Option<&Action<'a>> {
-        self.actions_from_action_v.get(v).map(Arc::as_ref)
+        self.actions_from_action_v
+            .get(&action::Shape::new(v))
+            .map(Arc::as_ref)
     }
 }
 
@@ -165,7 +167,7 @@ impl<'a> From<SquirrelDump<'a>> for ProcessedSquirrelDump<'a> {
             .collect();
         let actions_from_action_v = actions
             .values()
-            .map(|a| (a.action.clone(), Arc::clone(a)))
+            .map(|a| (a.shape(), Arc::clone(a)))
             .collect();
 
         Self {
-- 
2.43.0


From 96d7ec2534168b913f50c11daffebf702d99da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 41/46] fix: unfold the cells read before an input that a cell
 depends on

---
 crates/cryptovampire/src/formula/utils/formula_expander.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 6725296..e2ecdd4 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -277,7 +277,11 @@ impl<'bump> Unfolder<'bump> {
         graph: &PreprocessedDependancyGraph<'bump>,
         args: &[ARichFormula<'bump>],
     ) -> Vec<Unfolder<'bump>> {
-        let nstate = self.state.map_dk(|dk| dk - kind.unfold_flag());
+        // the ancestors of a cell do not go through the inputs, hence the
+        // cells read by the steps before this input are still to be unfolded
+        let nstate = self
+            .state
+            .map_dk(|dk| (dk - kind.unfold_flag()) | UnfoldFlags::UNFOLD_MEMORY_CELLS);
         unfold_cell_or_input(steps, graph, kind.into_macro_ref(), &nstate, args).collect()
     }
 
-- 
2.43.0


From 9fa52444fc0d62060dcb93456cef4b5c6de7fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 42/46] fix: the legacy evaluation axioms ignored their second
 argument list

---
 .../cryptovampire/src/problem/general_assertions/evaluate.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index 7f1c186..4950195 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -178,8 +178,8 @@ pub fn generate<'bump>(
                             .collect_vec();
 
                         let premise =
-                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, _v2)| {
-                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v1))
+                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, v2)| {
+                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v2))
                             }));
                         let conclusion = meq(
                             pbl.evaluator().eval(f.f(&vars1)), //.map(|v| v.into_formula()))),
-- 
2.43.0


From d909f29eef553d54b0293dd1da9b8d20bed703a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 43/46] fix: refuse functions given to assumptions that take
 none

---
 .../src/parser/parser/parse_step_cell_asserts/assert_crypto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
index 7d76169..7208aec 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
@@ -51,6 +51,9 @@ where
     } = crypto;
 
     match name.content.borrow() {
+        "nonce" | "memory_cell" if !functions.is_empty() => {
+            CheckError::wrong_num_args(functions.len(), 0..=0).with_location(span)
+        }
         "nonce" => Ok(CryptoAssumption::Nonce(Nonce)),
         "memory_cell" => Ok(CryptoAssumption::MemoryCell(Default::default())),
         "euf-cma" | "euf_cma" => parse_euf_cma(env, functions, options, span),
-- 
2.43.0


From 95450b5e156494b87e390d5509915be47ab370ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 44/46] fix: z3 was given vampire's rewrite rules and subterm
 relation

---
 crates/cryptovampire/src/runner/z3.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/runner/z3.rs b/crates/cryptovampire/src/runner/z3.rs
index 30158fa..b0fd5d4 100644
--- a/crates/cryptovampire/src/runner/z3.rs
+++ b/crates/cryptovampire/src/runner/z3.rs
@@ -10,7 +10,7 @@ use utils::traits::MyWriteTo;
 
 use crate::{
     ensure,
-    environement::environement::Flags,
+    environement::environement::{Flags, RewriteFlags, SubtermFlags},
     error::{BaseContext, CVContext},
     runner::{exec_cmd, RetCodeAndStdout, RunnerOut},
     smt::SmtFile,
@@ -43,6 +43,8 @@ impl Runner for Z3Runner {
     ) -> crate::Result<()> {
         let mut env = env.clone();
         env.options_mut().flags -= Flags::NON_SMT_STANDARD;
+        env.options_mut().rewrite_flags = RewriteFlags::empty();
+        env.options_mut().subterm_flags -= SubtermFlags::VAMPIRE;
         let env = &env;
 
         SmtFile::from_general_file(env, pbl.into_general_file(env)) // gen smt
-- 
2.43.0


From be71536aded4e8944618feaa9700fc6ff336781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 45/46] fix: discovered clauses with too few arguments were
 accepted and crashed

---
 crates/cryptovampire/src/formula/base_formula/tmp_formula.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs b/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs
index 4f9a1c5..177d6b3 100644
--- a/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs
+++ b/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs
@@ -80,6 +80,10 @@ impl TmpFormula {
             let sign = f.signature();
             trace!("{:?} : {sign:?}", f.as_inner());
             sign.out().unify(&expected_sort, realm)?;
+            if *sign.args_size().start() > args.len().into() {
+                debug!("failed: fewer arguments than expected\n\t=>{self}");
+                bail_at!(self, "fewer arguments than expected")
+            }
             let mut rf_args = vec![];
             for e in args.iter().zip_longest(sign.args()) {
                 match e {
-- 
2.43.0


From 3791e1be7c20f5a573ac7fd91fbe46f2844ecfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:20 +0000
Subject: [PATCH 46/46] fix: operators with a definition were refused in
 Squirrel dumps

---
 .../helper_functions/convertion_functions.rs  | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
index c98066a..1f8e5a2 100644
--- a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
+++ b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
@@ -85,7 +85,13 @@ where
         }),
         Either::Left(_) => false,
     };
+    // operators with a definition are declared as macros, with their own arguments
+    let is_concrete = match symb {
+        Either::Right(op) => is_concrete_operator(op, ctx),
+        Either::Left(_) => false,
+    };
     let mut args: Vec<_> = if_chain! {
+        if !is_concrete;
         if let Some(f) = ctx.dump().get_name_or_operator_fun_type(symb);
         let args_type = f.args.as_slice();
         if args_type.len() == 1;
@@ -116,11 +122,32 @@ where
                 let [condition, left, right] = args.try_into().map_err(|_| error_at!(@ "wrong number of arguments to if"))?;
                 ast::IfThenElse {span: Default::default(), condition, left, right}.into()
             }
+            SpecialFunction::Other(symb) if is_concrete => mk_app_macro(symb, args),
             SpecialFunction::Other(symb) => ast::Application::new_app(Default::default(),symb, args).into()
         }
     }
 }
 
+fn is_concrete_operator<'a, O>(op: &O, ctx: Context<'_, 'a>) -> bool
+where
+    O: Equivalent<OperatorName<'a>> + std::hash::Hash,
+{
+    ctx.dump()
+        .get_operator(op)
+        .is_some_and(|op| op.def().is_concrete())
+}
+
+fn mk_app_macro<'a>(symb: StrRef<'a>, args: Vec<Term<'a, StrRef<'a>>>) -> Term<'a, StrRef<'a>> {
+    ast::AppMacro {
+        span: Default::default(),
+        inner: ast::InnerAppMacro::Other {
+            name: symb.into(),
+            args,
+        },
+    }
+    .into()
+}
+
 enum SpecialFunction<'a> {
     Op(Operation),
     If,
@@ -349,6 +376,9 @@ pub fn convert_function<'a>(
         .get_operator(symb)
         .map(|f| f.sort.args.is_empty())
     {
+        if is_concrete_operator(symb, ctx) {
+            return pure!(mk_app_macro(symb.sanitized(&ctx), vec![]));
+        }
         pure!(ast::Application::new_app(Default::default(), symb.sanitized(&ctx), []).into())
     } else {
         bail_at!(@ "no high order...")
-- 
2.43.0

