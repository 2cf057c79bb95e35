From 01ca4d54b029af03ed4bdd7b3c3e2703f50e7fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 01/20] fix: keep cumulative context substitutions per worker

In the parallel checker, the cumulative substitution of a context was stored
in the context shared between workers, although its terms are allocated in
the term pool of whichever worker computed it last. Other workers then
compared those terms by reference with terms from their own pools, so whether
a step was accepted depended on the interleaving of the workers.
---
 carcara/src/ast/context.rs | 76 +++++++++++---------------------------
 1 file changed, 22 insertions(+), 54 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 5c38f74..0348b72 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -4,14 +4,12 @@ use std::sync::{atomic::AtomicUsize, Arc, RwLock, RwLockReadGuard, RwLockWriteGu
 #[derive(Debug)]
 pub struct Context {
     pub args: Vec<AnchorArg>,
-    pub cumulative_substitution: Option<Substitution>,
 }
 
 impl Context {
-    /// Builds a new context form the arguments to an `anchor`. This does not initalize the
-    /// `cumulative_substitution` field.
+    /// Builds a new context form the arguments to an `anchor`.
     fn new(args: Vec<AnchorArg>) -> Self {
-        Self { args, cumulative_substitution: None }
+        Self { args }
     }
 }
 
@@ -34,7 +32,11 @@ pub struct ContextStack {
     context_vec: Arc<Vec<ContextInfo>>,
     /// The stack of contexts id (works just like a map to `context_vec`).
     stack: Vec<usize>,
-    num_cumulative_calculated: usize,
+    /// The cumulative substitutions of the first contexts in the stack, computed on demand. Unlike
+    /// the contexts themselves, these are not shared between threads: the terms in them are
+    /// allocated in the term pool of the thread that computed them, so they cannot be compared (by
+    /// reference) with terms from another thread's pool.
+    cumulative_substitutions: Vec<Substitution>,
 }
 
 impl ContextStack {
@@ -55,7 +57,7 @@ impl ContextStack {
         Self {
             context_vec,
             stack: vec![],
-            num_cumulative_calculated: 0,
+            cumulative_substitutions: vec![],
         }
     }
 
@@ -65,7 +67,7 @@ impl ContextStack {
         Self {
             context_vec: self.context_vec.clone(),
             stack: vec![],
-            num_cumulative_calculated: 0,
+            cumulative_substitutions: vec![],
         }
     }
 
@@ -142,35 +144,23 @@ impl ContextStack {
             this_context.0.store(remaining_threads, Ordering::Release);
         }
 
-        self.num_cumulative_calculated =
-            std::cmp::min(self.num_cumulative_calculated, self.stack.len());
+        self.cumulative_substitutions.truncate(self.stack.len());
     }
 
     fn catch_up_cumulative(&mut self, pool: &mut dyn TermPool, up_to: usize) {
-        for i in self.num_cumulative_calculated..std::cmp::max(up_to + 1, self.len()) {
-            // Requires read guard. Since the i-th context will be mutated far
-            // below this line, we first take the read guard here and then, when
-            // necessary, we require the write guard. This tries to avoid bigger
-            // overheads
+        for i in self.cumulative_substitutions.len()..std::cmp::max(up_to + 1, self.len()) {
+            // The code structure makes sure that this context, when released for reading, will be
+            // already instantiated since there are only 2 cases:
+            //  - This thread was responsible for building this context. Then this context has
+            //      already been built.
+            //  - Another thread was assigned to build this context. Then, it doesn't matter if this
+            //      other thread has already finished the process, the current thread will have to
+            //      wait until the guard is released.
             let context_guard = self.context_vec[self.stack[i]].1.read().unwrap();
             let current_context = context_guard.as_ref().unwrap();
 
             let mut substitution = if i > 0 {
-                // Waits until OS allows to read this previous context. The code structure
-                // makes sure that this context, when released for reading, will be already
-                // instantiated since there are only 2 cases:
-                //  - This thread was responsible for building this previous context. Then
-                //      this context has already been built.
-                //  - Another thread was assigned to build this context. Then, it doesn't
-                //      matter if this other thread has already finished the process, the
-                //      current thread will have to wait until the guard is released.
-                let guard = self.context_vec[self.stack[i - 1]].1.read().unwrap();
-                guard
-                    .as_ref()
-                    .unwrap()
-                    .cumulative_substitution
-                    .clone()
-                    .unwrap()
+                self.cumulative_substitutions[i - 1].clone()
             } else {
                 Substitution::empty()
             };
@@ -193,11 +183,7 @@ impl ContextStack {
                 }
             }
 
-            // Drop the read guard, and acquire a write guard
-            drop(context_guard);
-            let mut context_guard = self.context_vec[self.stack[i]].1.write().unwrap();
-            context_guard.as_mut().unwrap().cumulative_substitution = Some(substitution);
-            self.num_cumulative_calculated = i + 1;
+            self.cumulative_substitutions.push(substitution);
         }
     }
 
@@ -207,16 +193,7 @@ impl ContextStack {
         } else {
             let index = self.len() - 2;
             self.catch_up_cumulative(pool, index);
-            self.context_vec[self.stack[index]]
-                .1
-                .write()
-                .unwrap()
-                .as_mut()
-                .unwrap()
-                .cumulative_substitution
-                .as_mut()
-                .unwrap()
-                .apply(pool, term)
+            self.cumulative_substitutions[index].apply(pool, term)
         }
     }
 
@@ -226,16 +203,7 @@ impl ContextStack {
         } else {
             let index = self.len() - 1;
             self.catch_up_cumulative(pool, index);
-            self.context_vec[self.stack[index]]
-                .1
-                .write()
-                .unwrap()
-                .as_mut()
-                .unwrap()
-                .cumulative_substitution
-                .as_mut()
-                .unwrap()
-                .apply(pool, term)
+            self.cumulative_substitutions[index].apply(pool, term)
         }
     }
 }
-- 
2.43.0


From 387bac30d6760b678e0e5b3473f4e14d194b3071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 02/20] fix: resolve sorts of worker-local terms against the
 global pool

Sorts computed by a parallel worker's local pool were always allocated in
that pool, so they compared as different from the same sorts in the global
pool, which made valid bind/let/forall_inst steps fail or panic when checked
in parallel.
---
 carcara/src/ast/pool/advanced.rs |  6 +++---
 carcara/src/ast/pool/mod.rs      | 31 +++++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index 086b12b..7e5d9fe 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -93,7 +93,7 @@ impl LocalPool {
     pub fn from_previous(ctx_pool: &ContextPool) -> Self {
         Self {
             ctx_pool: ContextPool::from_previous(ctx_pool),
-            inner: PrimitivePool::new(),
+            inner: PrimitivePool::extending(ctx_pool.global_pool.clone()),
         }
     }
 }
@@ -117,8 +117,8 @@ impl TermPool for LocalPool {
             sort.clone()
         }
         // A sort inserted by context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(term) {
-            entry.clone()
+        else if let Some(sort) = self.ctx_pool.inner.read().unwrap().sorts_cache.get(term) {
+            sort.clone()
         } else {
             self.inner.sorts_cache[term].clone()
         }
diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index cdeed27..7247180 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -6,6 +6,7 @@ mod storage;
 use super::{Binder, Operator, Rc, Sort, Substitution, Term};
 use crate::ast::{Constant, ParamOperator};
 use indexmap::{IndexMap, IndexSet};
+use std::sync::Arc;
 use storage::Storage;
 
 pub trait TermPool {
@@ -60,6 +61,10 @@ pub struct PrimitivePool {
     pub(crate) storage: Storage,
     pub(crate) free_vars_cache: IndexMap<Rc<Term>, IndexSet<Rc<Term>>>,
     pub(crate) sorts_cache: IndexMap<Rc<Term>, Rc<Term>>,
+
+    /// A pool that this pool extends. Terms that are already allocated in it (including the sorts
+    /// computed by this pool) are not allocated again.
+    parent: Option<Arc<PrimitivePool>>,
 }
 
 impl PrimitivePool {
@@ -69,8 +74,30 @@ impl PrimitivePool {
         Self::default()
     }
 
+    /// Constructs a new, empty `TermPool` that extends `parent`.
+    pub(crate) fn extending(parent: Arc<PrimitivePool>) -> Self {
+        Self {
+            parent: Some(parent),
+            ..Self::default()
+        }
+    }
+
+    /// Returns the allocation of `term` in this pool or in the pool that it extends, adding it to
+    /// this pool if there is none.
+    fn intern(&mut self, term: Term) -> Rc<Term> {
+        let inherited = self.parent.as_ref().and_then(|p| p.storage.get(&term));
+        match inherited {
+            Some(entry) => entry.clone(),
+            None => self.storage.add(term),
+        }
+    }
+
     /// Computes the sort of a term and adds it to the sort cache.
     fn compute_sort(&mut self, term: &Rc<Term>) -> Rc<Term> {
+        let inherited = self.parent.as_ref().and_then(|p| p.sorts_cache.get(term));
+        if let Some(sort) = inherited {
+            return sort.clone();
+        }
         if let Some(sort) = self.sorts_cache.get(term) {
             return sort.clone();
         }
@@ -350,7 +377,7 @@ impl PrimitivePool {
                 sort
             }
         };
-        let sort = self.storage.add(Term::Sort(result));
+        let sort = self.intern(Term::Sort(result));
         self.sorts_cache.insert(term.clone(), sort);
         self.sorts_cache[term].clone()
     }
@@ -451,7 +478,7 @@ impl PrimitivePool {
 
 impl TermPool for PrimitivePool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        let term = self.storage.add(term);
+        let term = self.intern(term);
         self.compute_sort(&term);
         term
     }
-- 
2.43.0


From 58e2a6a2f43dfa8052e112080533763ba75aaf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 03/20] fix: scheduler panic when a worker only gets unused
 subproofs

---
 carcara/src/checker/parallel/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/scheduler.rs b/carcara/src/checker/parallel/scheduler.rs
index 16a0cd5..79859a1 100644
--- a/carcara/src/checker/parallel/scheduler.rs
+++ b/carcara/src/checker/parallel/scheduler.rs
@@ -121,7 +121,11 @@ impl Scheduler {
                 top.id == top.cmds.len()
             } {
                 for schedule_id in &stack.last().unwrap().used_by {
-                    let last = loads[*schedule_id].last().unwrap();
+                    // If everything assigned to this schedule was useless context insertions, it is
+                    // empty, and there is nothing to close
+                    let Some(last) = loads[*schedule_id].last() else {
+                        continue;
+                    };
                     // If it's an useless context insertion
                     if last.0 < stack.len()
                         && matches!(stack[last.0].cmds[last.1], ProofCommand::Subproof(_))
-- 
2.43.0


From b6a3132265cc2932c364224b023c9b6045ff81e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 04/20] fix: accept the empty clause as the closing step of a
 subproof in parallel

The sequential checker pops the context of a subproof before testing whether
its closing step concludes the proof; the parallel checker tested it before.
---
 carcara/src/checker/parallel/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 1a8325d..e61e7cf 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -290,7 +290,10 @@ impl<'c> ParallelProofChecker<'c> {
                             }
                         })?;
 
-                    if step.clause.is_empty() && self.context.is_empty() {
+                    // The closing step of a subproof is not itself part of the subproof, but its
+                    // context is only popped when the next command is checked
+                    let outer_depth = self.context.len() - usize::from(iter.is_end_step());
+                    if step.clause.is_empty() && outer_depth == 0 {
                         self.reached_empty_clause = true;
                     }
                 }
-- 
2.43.0


From d40a7a4461739ab4ec712fe4c1b8ec89f44c82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 05/20] fix: default worker stack size of zero makes the
 parallel checker overflow

With the default `--stack-size 0`, workers got the minimum stack size the
platform allows, and overflowed on terms of very moderate depth (in debug
builds, on any proof).
---
 carcara/src/checker/parallel/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index e61e7cf..05514a9 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -21,6 +21,10 @@ use std::{
     time::{Duration, Instant},
 };
 
+/// The stack size of the worker threads, if none is specified. This is the usual stack size of the
+/// main thread, where the single-threaded checker runs.
+const DEFAULT_STACK_SIZE: usize = 8 * 1024 * 1024;
+
 pub struct ParallelProofChecker<'c> {
     pool: Arc<PrimitivePool>,
     config: Config,
@@ -33,6 +37,7 @@ pub struct ParallelProofChecker<'c> {
 }
 
 impl<'c> ParallelProofChecker<'c> {
+    /// Creates a new parallel checker. If `stack_size` is zero, a default size is used.
     pub fn new(
         pool: Arc<PrimitivePool>,
         config: Config,
@@ -48,7 +53,11 @@ impl<'c> ParallelProofChecker<'c> {
             context: ContextStack::from_usage(context_usage),
             reached_empty_clause: false,
             is_holey: false,
-            stack_size,
+            stack_size: if stack_size == 0 {
+                DEFAULT_STACK_SIZE
+            } else {
+                stack_size
+            },
             rare_rules,
         }
     }
-- 
2.43.0


From 3745d253169225bc39970c42532f6e00bc389a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 06/20] fix: applying a substitution to a let term panics or
 skips the bound values

---
 carcara/src/ast/substitution.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8360ea0..742ef9b 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -213,6 +213,7 @@ impl Substitution {
                 self.apply_to_binder(pool, term, *binder, binding_list.as_ref(), inner)
             }
             Term::Let(binding_list, inner) => {
+                self.compute_should_be_renamed(pool);
                 let (new_bindings, mut renaming) =
                     self.rename_binding_list(pool, binding_list, true);
                 let new_term = if renaming.is_empty() {
@@ -382,9 +383,10 @@ impl Substitution {
                 }
 
                 // If the binding list is a "value" list, we need to apply the current substitution
-                // to each variable's value
+                // to each variable's value. The variables bound by the list are not in scope in
+                // these values, so they are not renamed there
                 let new_value = if is_value_list {
-                    new_substitution.apply(pool, value)
+                    self.apply(pool, value)
                 } else {
                     value.clone()
                 };
-- 
2.43.0


From 2b73ce26381a6611a9528d841282cd96ff7a8048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 07/20] fix: benchmark with CSV output reports holey proofs as
 valid

When merging the results of several jobs, the flag that records that some
proof was holey was only kept from the first job.
---
 carcara/src/benchmarking/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carcara/src/benchmarking/mod.rs b/carcara/src/benchmarking/mod.rs
index 9f5da1b..fdc45c8 100644
--- a/carcara/src/benchmarking/mod.rs
+++ b/carcara/src/benchmarking/mod.rs
@@ -518,6 +518,7 @@ impl CollectResults for CsvBenchmarkResults {
         // in benchmarks anyway
         a.runs.extend(b.runs);
         a.steps.extend(b.steps);
+        a.is_holey |= b.is_holey;
         a.num_errors += b.num_errors;
         a
     }
-- 
2.43.0


From c7e2a31c2a6d97f8c3b1cb6371b4c94717e1b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 08/20] fix: benchmark loses the results of a job when a file
 cannot be parsed

run_job moved the results collected so far out of the accumulator before
opening and parsing the files, so a parsing or I/O error dropped all
measurements and the error and holey flags that its job had recorded.
---
 cli/src/benchmarking.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 231b2f4..4a5e610 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -27,13 +27,6 @@ fn run_job<T: CollectResults + Default + Send>(
     elaborator_config: Option<(elaborator::Config, Vec<elaborator::ElaborationStep>)>,
 ) -> Result<bool, carcara::Error> {
     let proof_file_name = job.proof_file.to_str().unwrap();
-    let mut checker_stats = checker::CheckerStatistics {
-        file_name: proof_file_name,
-        polyeq_time: Duration::ZERO,
-        assume_time: Duration::ZERO,
-        assume_core_time: Duration::ZERO,
-        results: std::mem::take(results),
-    };
 
     let total = Instant::now();
 
@@ -46,6 +39,16 @@ fn run_job<T: CollectResults + Default + Send>(
     )?;
     let parsing = parsing.elapsed();
 
+    // The results collected so far can only be moved into the statistics after the instance was
+    // successfully parsed, otherwise they would be lost when returning the error
+    let mut checker_stats = checker::CheckerStatistics {
+        file_name: proof_file_name,
+        polyeq_time: Duration::ZERO,
+        assume_time: Duration::ZERO,
+        assume_core_time: Duration::ZERO,
+        results: std::mem::take(results),
+    };
+
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
 
     let checking = Instant::now();
-- 
2.43.0


From 99227120c46dac07403b20d936b4bb956fe2a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 09/20] fix: benchmark elaborates proofs that were rejected by
 the checker

The elaborator assumes that the proof is valid, so elaborating a rejected
proof may panic, which aborts the whole benchmark.
---
 cli/src/benchmarking.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 4a5e610..fc0565a 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -56,16 +56,21 @@ fn run_job<T: CollectResults + Default + Send>(
     let checking_result = checker.check_with_stats(&problem, &proof, &mut checker_stats);
     let checking = checking.elapsed();
 
-    let (elaboration, pipeline_durations) = if let Some((config, pipeline)) = elaborator_config {
-        let elaboration = Instant::now();
-        let node = ast::ProofNodeForest::from_commands(proof.commands);
-        let (elaborated, pipeline_durations) =
-            elaborator::Elaborator::new(&mut pool, &problem, config)
-                .elaborate_with_stats(node, pipeline);
-        elaborated.into_commands();
-        (elaboration.elapsed(), pipeline_durations)
-    } else {
-        (Duration::ZERO, Vec::new())
+    let (elaboration, pipeline_durations) = match elaborator_config {
+        // Only proofs that were accepted can be elaborated
+        Some((_, pipeline)) if checking_result.is_err() => {
+            (Duration::ZERO, vec![Duration::ZERO; pipeline.len()])
+        }
+        Some((config, pipeline)) => {
+            let elaboration = Instant::now();
+            let node = ast::ProofNodeForest::from_commands(proof.commands);
+            let (elaborated, pipeline_durations) =
+                elaborator::Elaborator::new(&mut pool, &problem, config)
+                    .elaborate_with_stats(node, pipeline);
+            elaborated.into_commands();
+            (elaboration.elapsed(), pipeline_durations)
+        }
+        None => (Duration::ZERO, Vec::new()),
     };
 
     let total = total.elapsed();
-- 
2.43.0


From 7c2dbd3536c5ce134d93ec8298feeb84feb3dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 10/20] fix: parser panics on an indexed bit-vector constant
 without a value

---
 carcara/src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 6c01a0a..831254d 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1504,7 +1504,12 @@ impl<'a, R: BufRead> Parser<'a, R> {
         let op_symbol = self.expect_symbol()?;
 
         if let Some(value) = op_symbol.strip_prefix("bv") {
-            let parsed_value = value.parse::<Integer>().unwrap();
+            let parsed_value = value.parse::<Integer>().map_err(|_| {
+                Error::Parser(
+                    ParserError::InvalidIndexedOp(op_symbol.clone()),
+                    self.current_position,
+                )
+            })?;
             let args = self.parse_sequence(Self::parse_term, true)?;
             let mut constant_args = Vec::new();
             for arg in args {
-- 
2.43.0


From a3a888bc36076d80a30e6b52dbb2fd5a1f9cef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 11/20] fix: lexer panics on a rational literal without a
 denominator

---
 carcara/src/parser/lexer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/carcara/src/parser/lexer.rs b/carcara/src/parser/lexer.rs
index 0323dc9..efc1f28 100644
--- a/carcara/src/parser/lexer.rs
+++ b/carcara/src/parser/lexer.rs
@@ -383,6 +383,14 @@ impl<R: BufRead> Lexer<R> {
                 let e = ParserError::UnexpectedChar(self.current_char.unwrap());
                 return Err(Error::Parser(e, self.position));
             }
+            if delimiter == '/' && second_part.is_empty() {
+                // A rational literal needs at least one digit in the denominator
+                let e = match self.current_char {
+                    Some(c) => ParserError::UnexpectedChar(c),
+                    None => ParserError::UnexpectedToken(Token::Eof),
+                };
+                return Err(Error::Parser(e, self.position));
+            }
             let r = match delimiter {
                 '/' => {
                     let [numer, denom] =
-- 
2.43.0


From 6306f01279bc411a82f717d1d5d334bde5f6294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 12/20] fix: elaborated holes get invalid subproofs when
 assumptions are unordered or unused, and clashing ids

---
 carcara/src/elaborator/hole.rs        | 110 +-------------------------
 carcara/src/elaborator/lia_generic.rs |   2 +-
 2 files changed, 2 insertions(+), 110 deletions(-)

diff --git a/carcara/src/elaborator/hole.rs b/carcara/src/elaborator/hole.rs
index 6f07ce6..04ead47 100644
--- a/carcara/src/elaborator/hole.rs
+++ b/carcara/src/elaborator/hole.rs
@@ -82,7 +82,7 @@ pub fn hole(elaborator: &mut Elaborator, step: &StepNode) -> Option<Rc<ProofNode
         }
     };
 
-    Some(insert_solver_proof(
+    Some(lia_generic::insert_solver_proof(
         elaborator.pool,
         commands,
         &step.clause,
@@ -159,111 +159,3 @@ fn parse_and_check_solver_proof(
     let res = checker::ProofChecker::new(pool, &rules, config).check(&problem, &proof)?;
     Ok((proof.commands, res))
 }
-
-fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) -> Rc<ProofNode> {
-    proof.mutate(|_, node, _| {
-        let node = match node.as_ref().clone() {
-            ProofNode::Assume { id, depth, term } => ProofNode::Assume {
-                id: format!("{}.{}", prefix, id),
-                depth: depth + delta,
-                term,
-            },
-            ProofNode::Step(mut s) => {
-                s.id = format!("{}.{}", prefix, s.id);
-                s.depth += delta;
-                ProofNode::Step(s)
-            }
-            ProofNode::Subproof(_) => unreachable!(),
-        };
-        Rc::new(node)
-    })
-}
-
-fn insert_solver_proof(
-    pool: &mut PrimitivePool,
-    commands: Vec<ProofCommand>,
-    conclusion: &[Rc<Term>],
-    root_id: &str,
-    depth: usize,
-) -> Rc<ProofNode> {
-    let proof = ProofNodeForest::from_commands(commands)
-        .0
-        .into_iter()
-        .find(|node| node.clause().is_empty())
-        .expect("solver proof does not conclude empty clause");
-
-    let mut ids = IdHelper::new(root_id);
-    let subproof_id = ids.next_id();
-
-    let mut clause: Vec<_> = conclusion
-        .iter()
-        .map(|l| build_term!(pool, (not (not {l.clone()}))))
-        .collect();
-
-    clause.push(pool.bool_false());
-
-    let proof = increase_subproof_depth(proof, depth + 1, root_id);
-    let subproof_assumptions = proof.get_assumptions_of_depth(depth + 1);
-
-    let last_step = Rc::new(ProofNode::Step(StepNode {
-        id: subproof_id,
-        depth: depth + 1,
-        clause: clause.clone(),
-        rule: "subproof".to_owned(),
-        premises: Vec::new(),
-        args: Vec::new(),
-        discharge: subproof_assumptions,
-        previous_step: Some(proof),
-    }));
-
-    let subproof = Rc::new(ProofNode::Subproof(SubproofNode {
-        last_step,
-        args: Vec::new(),
-        // Since the subproof was inserted from the solver proof, it cannot reference anything
-        // outside of it.
-        outbound_premises: Vec::new(),
-        extra_steps: Vec::new(),
-    }));
-
-    let not_not_steps: Vec<_> = clause[..clause.len() - 1]
-        .iter()
-        .map(|term| {
-            let clause = vec![
-                build_term!(pool, (not {term.clone()})),
-                term.remove_negation()
-                    .unwrap()
-                    .remove_negation()
-                    .unwrap()
-                    .clone(),
-            ];
-            Rc::new(ProofNode::Step(StepNode {
-                id: ids.next_id(),
-                depth,
-                clause,
-                rule: "not_not".to_owned(),
-                ..Default::default()
-            }))
-        })
-        .collect();
-
-    let false_step = Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: vec![build_term!(pool, (not {pool.bool_false()}))],
-        rule: "false".to_owned(),
-        ..Default::default()
-    }));
-
-    let mut premises = vec![subproof];
-    premises.extend(not_not_steps);
-    premises.push(false_step);
-
-    Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: conclusion.to_vec(),
-        rule: "resolution".to_owned(),
-        premises,
-        ..Default::default()
-    }))
-}
diff --git a/carcara/src/elaborator/lia_generic.rs b/carcara/src/elaborator/lia_generic.rs
index 35bc764..1a168fd 100644
--- a/carcara/src/elaborator/lia_generic.rs
+++ b/carcara/src/elaborator/lia_generic.rs
@@ -165,7 +165,7 @@ fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) ->
     })
 }
 
-fn insert_solver_proof(
+pub fn insert_solver_proof(
     pool: &mut PrimitivePool,
     commands: Vec<ProofCommand>,
     conclusion: &[Rc<Term>],
-- 
2.43.0


From 30403b6d6d148dfc277b97b6f5f8eecc5220a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 13/20] fix: elaborated lia_generic steps with repeated
 literals do not check

---
 carcara/src/elaborator/lia_generic.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/carcara/src/elaborator/lia_generic.rs b/carcara/src/elaborator/lia_generic.rs
index 1a168fd..b862de8 100644
--- a/carcara/src/elaborator/lia_generic.rs
+++ b/carcara/src/elaborator/lia_generic.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::{checker, parser, CarcaraResult};
+use crate::{checker, parser, utils::DedupIterator, CarcaraResult};
 use std::{
     io::{self, BufRead, Write},
     process::{Command, Stdio},
@@ -242,7 +242,7 @@ pub fn insert_solver_proof(
         previous_step: Some(proof),
     }));
 
-    let subproof = Rc::new(ProofNode::Subproof(SubproofNode {
+    let mut subproof = Rc::new(ProofNode::Subproof(SubproofNode {
         last_step,
         args: Vec::new(),
         // Since the subproof was inserted from the solver proof, it cannot reference anything
@@ -251,6 +251,20 @@ pub fn insert_solver_proof(
         extra_steps: Vec::new(),
     }));
 
+    // if there are repeated literals, we contract them, since a resolution pivot eliminates all
+    // repetitions of a literal at once
+    if covered.len() != conclusion.len() {
+        clause = clause.into_iter().dedup().collect();
+        subproof = Rc::new(ProofNode::Step(StepNode {
+            id: ids.next_id(),
+            depth,
+            clause: clause.clone(),
+            rule: "contraction".to_owned(),
+            premises: vec![subproof],
+            ..Default::default()
+        }));
+    }
+
     let not_not_steps: Vec<_> = clause[..clause.len() - 1]
         .iter()
         .map(|term| {
-- 
2.43.0


From deb9c09763e7cd564bce9bd991bcd8e32b26c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 14/20] fix: elaboration hangs on solvers that print before
 reading all input, and leaves failed ones unwaited for

---
 carcara/src/elaborator/hole.rs        | 15 ++++--------
 carcara/src/elaborator/lia_generic.rs | 34 +++++++++++++++++----------
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/carcara/src/elaborator/hole.rs b/carcara/src/elaborator/hole.rs
index 04ead47..7756765 100644
--- a/carcara/src/elaborator/hole.rs
+++ b/carcara/src/elaborator/hole.rs
@@ -1,7 +1,7 @@
 use super::*;
 use crate::{checker, parser, CarcaraResult};
 use std::{
-    io::{self, BufRead, Write},
+    io::{self, BufRead},
     process::{Command, Stdio},
 };
 use thiserror::Error;
@@ -96,7 +96,7 @@ fn get_solver_proof(
     problem: String,
     options: &HoleOptions,
 ) -> Result<(Vec<ProofCommand>, bool), HoleError> {
-    let mut process = Command::new(options.solver.as_ref())
+    let process = Command::new(options.solver.as_ref())
         .args(options.arguments.iter().map(AsRef::as_ref))
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
@@ -104,16 +104,9 @@ fn get_solver_proof(
         .spawn()
         .map_err(HoleError::FailedSpawnSolver)?;
 
-    process
-        .stdin
-        .take()
-        .expect("failed to open solver stdin")
-        .write_all(problem.as_bytes())
-        .map_err(HoleError::FailedWriteToSolverStdin)?;
-
-    let output = process
-        .wait_with_output()
+    let (written, output) = lia_generic::communicate(process, problem.as_bytes())
         .map_err(HoleError::FailedWaitForSolver)?;
+    written.map_err(HoleError::FailedWriteToSolverStdin)?;
 
     if !output.status.success() {
         if let Ok(s) = std::str::from_utf8(&output.stderr) {
diff --git a/carcara/src/elaborator/lia_generic.rs b/carcara/src/elaborator/lia_generic.rs
index b862de8..5304b1f 100644
--- a/carcara/src/elaborator/lia_generic.rs
+++ b/carcara/src/elaborator/lia_generic.rs
@@ -2,7 +2,8 @@ use super::*;
 use crate::{checker, parser, utils::DedupIterator, CarcaraResult};
 use std::{
     io::{self, BufRead, Write},
-    process::{Command, Stdio},
+    process::{Child, Command, Output, Stdio},
+    thread,
 };
 use thiserror::Error;
 
@@ -78,12 +79,28 @@ pub fn lia_generic(elaborator: &mut Elaborator, step: &StepNode) -> Option<Rc<Pr
     ))
 }
 
+/// Sends `input` to the solver, and waits for it to exit. The first returned value says whether the
+/// solver took the whole input.
+///
+/// The input is written while the output is being read: a solver that prints something before
+/// having read all of its input would otherwise block forever, and so would we, once the pipes are
+/// full. The process is always waited for, even if it stopped reading its input.
+pub fn communicate(mut process: Child, input: &[u8]) -> io::Result<(io::Result<()>, Output)> {
+    let mut stdin = process.stdin.take().expect("failed to open solver stdin");
+    thread::scope(|scope| {
+        let writer = thread::Builder::new().spawn_scoped(scope, move || stdin.write_all(input));
+        let output = process.wait_with_output()?;
+        let written = writer.and_then(|w| w.join().expect("solver stdin writer panicked"));
+        Ok((written, output))
+    })
+}
+
 fn get_solver_proof(
     pool: &mut PrimitivePool,
     problem: String,
     options: &LiaGenericOptions,
 ) -> Result<Vec<ProofCommand>, LiaGenericError> {
-    let mut process = Command::new(options.solver.as_ref())
+    let process = Command::new(options.solver.as_ref())
         .args(options.arguments.iter().map(AsRef::as_ref))
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
@@ -91,16 +108,9 @@ fn get_solver_proof(
         .spawn()
         .map_err(LiaGenericError::FailedSpawnSolver)?;
 
-    process
-        .stdin
-        .take()
-        .expect("failed to open solver stdin")
-        .write_all(problem.as_bytes())
-        .map_err(LiaGenericError::FailedWriteToSolverStdin)?;
-
-    let output = process
-        .wait_with_output()
-        .map_err(LiaGenericError::FailedWaitForSolver)?;
+    let (written, output) =
+        communicate(process, problem.as_bytes()).map_err(LiaGenericError::FailedWaitForSolver)?;
+    written.map_err(LiaGenericError::FailedWriteToSolverStdin)?;
 
     if !output.status.success() {
         if let Ok(s) = std::str::from_utf8(&output.stderr) {
-- 
2.43.0


From 7be5239bf5edf774aed6a29902f6123e920b573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 15/20] fix: substitutions of enclosing contexts were applied
 to shadowed variables, depending on what had been checked before

---
 carcara/src/ast/context.rs      |  2 +-
 carcara/src/ast/substitution.rs | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 0348b72..a0dbd4d 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -160,7 +160,7 @@ impl ContextStack {
             let current_context = context_guard.as_ref().unwrap();
 
             let mut substitution = if i > 0 {
-                self.cumulative_substitutions[i - 1].clone()
+                self.cumulative_substitutions[i - 1].without_cache()
             } else {
                 Substitution::empty()
             };
diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 742ef9b..3c47435 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -132,12 +132,25 @@ impl Substitution {
 
     /// Removes a mapping from the substitution.
     ///
-    /// This will clear `self.should_be_renamed`, such that it might need to be recomputed later.
-    /// Therefore, you should avoid using this method if possible.
+    /// This will clear `self.should_be_renamed` and the cache, such that they might need to be
+    /// recomputed later. Therefore, you should avoid using this method if possible.
     pub(super) fn remove(&mut self, x: &Rc<Term>) {
         let was_present = self.map.swap_remove(x).is_some();
         if was_present {
             self.should_be_renamed = None;
+            self.cache.clear();
+        }
+    }
+
+    /// Returns a copy of the substitution that has not been applied to any term yet.
+    ///
+    /// Adding mappings to the copy may change which bound variables are renamed, so results that
+    /// were cached for the original must not be reused.
+    pub(super) fn without_cache(&self) -> Self {
+        Self {
+            map: self.map.clone(),
+            should_be_renamed: None,
+            cache: IndexMap::new(),
         }
     }
 
-- 
2.43.0


From cc4f25d3455b90e071b901346c8d8b6044d86aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 16/20] fix: bench panics when asked for zero runs or zero jobs

---
 cli/src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index b878e5a..97d4024 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -355,6 +355,14 @@ struct ElaborateCommandOptions {
     stats: StatsOptions,
 }
 
+fn validate_positive(s: &str) -> Result<(), String> {
+    match s.parse::<usize>() {
+        Ok(0) => Err("must be at least 1".to_owned()),
+        Ok(_) => Ok(()),
+        Err(e) => Err(e.to_string()),
+    }
+}
+
 #[derive(Args)]
 struct BenchCommandOptions {
     #[clap(flatten)]
@@ -371,11 +379,11 @@ struct BenchCommandOptions {
     elaboration: ElaborationOptions,
 
     /// Number of times to run the benchmark for each file.
-    #[clap(short, long, default_value_t = 1)]
+    #[clap(short, long, default_value_t = 1, validator = validate_positive)]
     num_runs: usize,
 
     /// Number of jobs to run simultaneously when running the benchmark.
-    #[clap(short = 'j', long, default_value_t = 1)]
+    #[clap(short = 'j', long, default_value_t = 1, validator = validate_positive)]
     num_jobs: usize,
 
     /// Show benchmark results sorted by total time taken, instead of by average time taken.
-- 
2.43.0


From 33c1ab6df248ade1dbfa5fa0075ea8c16e1938e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 17/20] fix: statistics of a parallel check lacked the file
 name of the measured steps

---
 carcara/src/checker/parallel/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 05514a9..0401dd7 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -159,6 +159,7 @@ impl<'c> ParallelProofChecker<'c> {
         // thread already found out an invalid step)
         let premature_abort = Arc::new(AtomicBool::new(false));
         let context_pool = ContextPool::from_global(&self.pool);
+        let file_name = stats.file_name;
         //
         thread::scope(|s| {
             let threads: Vec<_> = scheduler
@@ -167,7 +168,7 @@ impl<'c> ParallelProofChecker<'c> {
                 .enumerate()
                 .map(|(i, schedule)| {
                     let mut local_stats = CheckerStatistics {
-                        file_name: "",
+                        file_name,
                         polyeq_time: Duration::ZERO,
                         assume_time: Duration::ZERO,
                         assume_core_time: Duration::ZERO,
-- 
2.43.0


From 592ce95f613a0bb90848b69a565a7c88c4466e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:32 +0000
Subject: [PATCH 18/20] fix: verdict of cutting planes steps depended on how
 terms are shared, and so on other threads

---
 carcara/src/checker/rules/cutting_planes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 7d61d65..4c7514f 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -39,10 +39,10 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
         let (coeff, literal) =
             // Negated literal  (* c (- 1 x1))
             if let Some((coeff, (_, literal))) = match_term!((* coeff (- 1 literal)) = term) {
-                (coeff, format!("~{}",literal))
+                (coeff, format!("~{:#}", literal))
             // Plain literal    (* c x1)
             } else if let Some((coeff, literal)) = match_term!((* coeff literal) = term) {
-                (coeff, format!("{}",literal))
+                (coeff, format!("{:#}", literal))
             } else {
                 return Err(CheckerError::Explanation(format!("Term is neither plain nor negated: {}",term)));
             };
-- 
2.43.0


From d60f15c52cc10fd8ccccb69d0250e16766fee7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 19/20] fix: free variables of a let term: displaying one could
 panic, and its values were left out

---
 carcara/src/ast/pool/mod.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 7247180..ee6b953 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -396,19 +396,6 @@ impl PrimitivePool {
         self.add(term)
     }
 
-    fn sort_with_priorities<const N: usize>(
-        &mut self,
-        term: &Rc<Term>,
-        prior_pools: [&PrimitivePool; N],
-    ) -> Rc<Term> {
-        for p in prior_pools {
-            if let Some(sort) = p.sorts_cache.get(term) {
-                return sort.clone();
-            }
-        }
-        self.sorts_cache[term].clone()
-    }
-
     // TODO: Try to workaround the lifetime specifiers and return a ref
     pub fn free_vars_with_priorities<const N: usize>(
         &mut self,
@@ -450,10 +437,10 @@ impl PrimitivePool {
             }
             Term::Let(bindings, inner) => {
                 let mut vars = self.free_vars_with_priorities(inner, prior_pools);
-                for (var, value) in bindings {
-                    let sort = self.sort_with_priorities(value, prior_pools);
-                    let term = self.add_with_priorities((var.clone(), sort).into(), prior_pools);
-                    vars.swap_remove(&term);
+                // The values' sorts might not be in this pool, so we look for the names
+                vars.retain(|v| !bindings.iter().any(|(name, _)| v.as_var() == Some(name)));
+                for (_, value) in bindings {
+                    vars.extend(self.free_vars_with_priorities(value, prior_pools));
                 }
                 vars
             }
-- 
2.43.0


From 3b523c650b0aebdd8eeae394686678755914de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 20/20] fix: give the same errors whether the input is buffered
 or streamed

---
 cli/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 97d4024..2298aae 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -524,8 +524,7 @@ type CliInstance = CliResult<(Box<dyn BufRead>, Box<dyn BufRead>, Option<Box<dyn
 fn get_instance(options: &Input, buffer_entire_file: bool) -> CliInstance {
     fn reader_from_path<P: AsRef<Path>>(path: P, buffer_file: bool) -> CliResult<Box<dyn BufRead>> {
         if buffer_file {
-            let content = std::fs::read_to_string(&path)?;
-            Ok(Box::new(io::Cursor::new(content.into_bytes())))
+            Ok(Box::new(io::Cursor::new(std::fs::read(&path)?)))
         } else {
             Ok(Box::new(io::BufReader::new(File::open(path)?)))
         }
-- 
2.43.0

