From b65d87ba5c55afb3606936a7c6ba2b2375dce871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 01/27] fix: use the negated literal for the inverse of strict
 nonlinear constraints

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 06036f5..27c502e 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -84,7 +84,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
         propagator_.add_constraint(std::make_unique<NonlinearConstraint>(lit, co_ab, var_a, var_b, co_c, var_c, rhs));
         if (strict) {
             propagator_.add_constraint(std::make_unique<NonlinearConstraint>(
-                lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
+                -lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
         }
         return true;
     }
-- 
2.43.0


From 0dc32d481fa3f37a884cee596b4a2910f29a67f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 02/27] fix: include the constraint literal in reasons of
 nonlinear constraints

---
 libclingcon/src/constraints.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 7d41133..5abd58b 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1416,6 +1416,8 @@ class NonlinearConstraintState : public AbstractConstraintState {
         static_cast<void>(cc);
         static_cast<void>(check_state);
 
+        auto ass = cc.assignment();
+        auto clit = constraint_.literal();
         auto &vs_x = solver.var_state(constraint_.var_x());
         auto &vs_y = solver.var_state(constraint_.var_y());
         nsum_t co_a = constraint_.co_a();
@@ -1470,9 +1472,15 @@ class NonlinearConstraintState : public AbstractConstraintState {
                     reason.emplace_back(solver.get_literal(cc, *vs_z, vs_z->lower_bound() - 1));
                 }
             }
+            reason.emplace_back(-clit);
             return cc.add_clause(reason);
         }
 
+        // only constraints that have to hold can propagate bounds
+        if (!ass.is_true(clit)) {
+            return true;
+        }
+
         // TODO: the code has to be refined.
         // Some first throw to propagate the linear term. This should be quite
         // similar to the propagation of linear constraints.
@@ -1494,6 +1502,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_y, vs_y.lower_bound() - 1));
+                    reason.emplace_back(-clit);
 
                     reason.emplace_back(solver.get_literal(cc, *vs_z, static_cast<val_t>(bound_z)));
                     if (!cc.add_clause(reason)) {
@@ -1510,6 +1519,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_y, vs_y.lower_bound() - 1));
+                    reason.emplace_back(-clit);
 
                     reason.emplace_back(-solver.get_literal(cc, *vs_z, static_cast<val_t>(bound_z) - 1));
                     if (!cc.add_clause(reason)) {
-- 
2.43.0


From 06119534ee4dd11843f971dcc7a86c9e1714acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 03/27] fix: round up in ceildiv

---
 libclingcon/clingcon/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/util.hh b/libclingcon/clingcon/util.hh
index 74ab195..6413519 100644
--- a/libclingcon/clingcon/util.hh
+++ b/libclingcon/clingcon/util.hh
@@ -88,7 +88,7 @@ template <typename I> auto floordiv(I n, I m) -> I {
 template <typename I> auto ceildiv(I n, I m) -> I {
     using std::div;
     auto a = div(n, m);
-    if (((n < 0) ^ (m < 0)) && a.rem != 0) {
+    if (((n < 0) == (m < 0)) && a.rem != 0) {
         a.quot++;
     }
     return a.quot;
-- 
2.43.0


From 77bf208ca49974a6046f7f841c9b6f54c83333bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 04/27] fix: reject nonlinear sums with more than one nonlinear
 term

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 13b3c2a..4e60221 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -478,7 +478,7 @@ auto simplify(NonlinearTermVec &vec, bool drop_zero) -> val_t {
             var_c = vars.front();
         }
         if (vars.size() == 2) {
-            check_syntax(co_c == 0, "nonlinear sums can have at most one nonlinear term");
+            check_syntax(co_ab == 0, "nonlinear sums can have at most one nonlinear term");
             co_ab = co;
             var_a = vars.front();
             var_b = vars.back();
-- 
2.43.0


From 5980c0faa7acea9462ba3ca87f36382c7c002fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 05/27] fix: support zero as base of powers with non-negative
 exponents

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 4e60221..f1cc0dc 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -253,7 +253,7 @@ template <class F>
 }
 
 auto safe_pow(val_t a, val_t b) -> val_t {
-    if (a == 0) {
+    if (a == 0 && b < 0) {
         throw std::overflow_error("integer overflow");
     }
     auto ret = std::pow(static_cast<double>(a), b);
-- 
2.43.0


From 1aeafe5de700d83ce26125065532c6a4ab3c7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 06/27] fix: falsify dom constraints with empty domains

---
 libclingcon/src/solver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index e55c7ba..a64dcf7 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -1033,6 +1033,9 @@ auto Solver::add_dom(AbstractClauseCreator &cc, lit_t lit, var_t var, IntervalSe
     if (ass.is_true(lit)) {
         lit = TRUE_LIT;
     }
+    if (domain.empty()) {
+        return cc.add_clause({-lit});
+    }
     auto &vs = var_state(var);
 
     std::optional<val_t> py;
-- 
2.43.0


From 951c20a2eda333615a64c487dd8da59dd83f79fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 07/27] fix: preserve the constant of the objective in
 multi-shot solving

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 27c502e..ffa40f2 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -252,7 +252,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
             for (auto elem : *minimize_) {
                 minimize_elems_.emplace_back(elem);
             }
-            minimize_elems_.emplace_back(minimize_->adjust(), INVALID_VAR);
+            minimize_elems_.emplace_back(safe_inv(minimize_->adjust()), INVALID_VAR);
         }
         // simplify minimize
         if (!minimize_elems_.empty()) {
-- 
2.43.0


From 026086dc64042d034a11a258b458d911c8f3a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 08/27] fix: skip variables without a symbol when iterating
 over the assignment

---
 libclingcon/src/clingcon.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index f7e15b3..6f33996 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -610,7 +610,7 @@ extern "C" auto clingcon_assignment_next(clingcon_theory_t *theory, uint32_t thr
     auto const &map = theory->propagator.var_map();
     auto it = map.lower_bound(*index);
     if (it != map.end()) {
-        *index = *index + 1;
+        *index = it->first + 1;
         return true;
     }
     return false;
-- 
2.43.0


From 72396d39e38bca80dede1483ca077e245a9199cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 09/27] fix: do not shift difference constraints that would
 have to be negated

---
 libclingcon/src/parsing.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index f1cc0dc..5ee7324 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -119,6 +119,11 @@ auto shift_rule(Clingo::AST::Node ast) -> Clingo::AST::Node {
         if (atom.type() != Type::TheoryAtom || !match(atom.get<Node>(Attribute::Term), "sum", "diff")) {
             continue;
         }
+        // difference constraints only support operator '<=' and cannot be negated
+        if (match(atom.get<Node>(Attribute::Term), "diff") &&
+            static_cast<Sign>(lit.get<int>(Attribute::Sign)) != Sign::Negation) {
+            continue;
+        }
         auto ret = ast.copy();
         auto ret_bd = ret.get<NodeVector>(Attribute::Body);
         auto jt = ret_bd.begin() + (it - body.begin());
-- 
2.43.0


From 18ca079538e0852248d1986bb432418017fc5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 10/27] fix: propagate elements of distinct constraints that
 are assigned upfront

---
 libclingcon/src/constraints.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 5abd58b..237898f 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -820,6 +820,9 @@ class DistinctConstraintState final : public AbstractConstraintState {
             auto [lower, upper] = init_(solver, idx);
             lower_.emplace(lower, idx);
             upper_.emplace(upper, idx);
+            // elements might already be assigned and never be updated
+            mark_todo_(1, idx);
+            mark_todo_(-1, idx);
             for (auto [co, var] : element) {
                 solver.add_var_watch(var, co > 0 ? idx + 1 : -idx - 1, *this);
             }
-- 
2.43.0


From faa7297fc3445c0551c5b0ab399445b2006d2352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 11/27] fix: propagate facts to order literals that are
 introduced later

---
 libclingcon/clingcon/solver.hh |  2 +-
 libclingcon/src/solver.cc      | 40 ++++++++++------------------------
 2 files changed, 13 insertions(+), 29 deletions(-)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 1696306..c2ee95f 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -842,7 +842,7 @@ class Solver {
     //! `(var,value)` is contained in the map
     std::vector<LitmapEntry> litmap_;
     //! Like litmap but for facts only.
-    std::vector<std::tuple<lit_t, var_t, val_t, lit_t>> factmap_;
+    std::vector<std::tuple<lit_t, var_t, val_t>> factmap_;
     //! A mapping from constraint states to constraints.
     std::unordered_map<AbstractConstraint *, UniqueConstraintState> c2cs_;
     //! Watches mapping variables to a constraint state and a constraint
diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index a64dcf7..b8cae37 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -512,8 +512,8 @@ auto Solver::update_literal(AbstractClauseCreator &cc, VarState &vs, val_t value
     // there was no literal yet
     if (old == 0) {
         old = truth == Clingo::TruthValue::True ? TRUE_LIT : -TRUE_LIT;
-        auto ps = update_litmap_(vs, old, value);
-        factmap_.emplace_back(old, vs.var(), value, truth == Clingo::TruthValue::True ? ps.second : ps.first);
+        update_litmap_(vs, old, value);
+        factmap_.emplace_back(old, vs.var(), value);
     }
     // we keep the literal
     return old;
@@ -772,7 +772,7 @@ auto Solver::update_domain_(AbstractClauseCreator &cc, lit_t lit) -> bool {
             assert(vs.get_literal(olit.value()) == lit);
             vs.set_literal(olit.value(), TRUE_LIT);
             update_litmap_(vs, TRUE_LIT, olit.value());
-            factmap_.emplace_back(TRUE_LIT, olit.var(), olit.value(), olit.succ());
+            factmap_.emplace_back(TRUE_LIT, olit.var(), olit.value());
             olit.unset();
         }
         if (auto &olit = litmap_at_(-lit); olit.valid(-lit)) {
@@ -780,7 +780,7 @@ auto Solver::update_domain_(AbstractClauseCreator &cc, lit_t lit) -> bool {
             assert(vs.get_literal(olit.value()) == -lit);
             vs.set_literal(olit.value(), -TRUE_LIT);
             update_litmap_(vs, -TRUE_LIT, olit.value());
-            factmap_.emplace_back(-TRUE_LIT, olit.var(), olit.value(), olit.prev());
+            factmap_.emplace_back(-TRUE_LIT, olit.var(), olit.value());
             olit.unset();
         }
         lit = TRUE_LIT;
@@ -792,17 +792,20 @@ auto Solver::update_domain_(AbstractClauseCreator &cc, lit_t lit) -> bool {
     // Fact propagation. (Could also be put in the litmap...)
     if (lit == TRUE_LIT) {
         assert(ass.decision_level() == 0);
-        for (auto [fact_lit, var, value, prec_lit] : factmap_) {
+        // Note: Order literals might have been added between adding and
+        // propagating a fact. Hence, preceding and succeeding literals have to
+        // be looked up here.
+        for (auto [fact_lit, var, value] : factmap_) {
             auto &vs = var_state(var);
             if (fact_lit == TRUE_LIT) {
-                if (!update_upper_(lvl, cc, var, TRUE_LIT, value, prec_lit)) {
+                if (!update_upper_(lvl, cc, var, TRUE_LIT, value, vs.lit_succ(value))) {
                     return false;
                 }
                 assert(vs.get_literal(value) == TRUE_LIT);
                 update_litmap_(vs, 0, value);
                 vs.unset_literal(value);
             } else {
-                if (!update_lower_(lvl, cc, var, TRUE_LIT, value, prec_lit)) {
+                if (!update_lower_(lvl, cc, var, TRUE_LIT, value, vs.lit_prev(value))) {
                     return false;
                 }
                 assert(vs.get_literal(value) == -TRUE_LIT);
@@ -1110,8 +1113,8 @@ auto Solver::add_simple(AbstractClauseCreator &cc, lit_t clit, val_t co, var_t v
         } else {
             lit = truth == Clingo::TruthValue::True ? TRUE_LIT : -TRUE_LIT;
             ;
-            auto ps = update_litmap_(vs, lit, value);
-            factmap_.emplace_back(lit, vs.var(), value, truth == Clingo::TruthValue::True ? ps.second : ps.first);
+            update_litmap_(vs, lit, value);
+            factmap_.emplace_back(lit, vs.var(), value);
         }
         vs.set_literal(value, lit);
     }
@@ -1151,25 +1154,6 @@ void Solver::check_litmap_() {
             assert(succ_lit == TRUE_LIT);
         }
     }
-    for (auto [lit, var, value, prec_lit] : factmap_) {
-        auto &vs = var_state(var);
-        if (lit == -TRUE_LIT) {
-            if (auto it = vs.lit_lt(value); it != vs.rend()) {
-                assert(it->second == prec_lit);
-            }
-            else {
-                assert(prec_lit == -TRUE_LIT);
-            }
-        }
-        if (lit == TRUE_LIT) {
-            if (auto it = vs.lit_gt(value); it != vs.end()) {
-                assert(it->second == prec_lit);
-            }
-            else {
-                assert(prec_lit == TRUE_LIT);
-            }
-        }
-    }
 }
 #endif
 
-- 
2.43.0


From 53b2969d790a4baa2b2b8e1aa0b3bc0dcc4c5d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 12/27] fix: do not check the objective bound before it is in
 effect

---
 libclingcon/src/propagator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index ffa40f2..518c85f 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -532,7 +532,11 @@ void Propagator::check(Clingo::PropagateControl &control) {
     // guaranteed follow-up propagate call because all newly introduced
     // variables are watched.
     if (size == ass.size() && ass.is_total()) {
-        solver.check_full(cc, config_.check_solution);
+        // Note: Clauses implied by the minimize bound are tagged and might not
+        // be in effect yet on level 0. In this case, the assignment is no
+        // solution candidate because it still has to be extended with the step
+        // literal.
+        solver.check_full(cc, config_.check_solution && (dl > 0 || minimize_ == nullptr));
     }
 }
 
-- 
2.43.0


From b8e73b8de9e4e48cd56b4d8d70057f92d5bed4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 13/27] fix: only reset the state of constraints that are
 removed

---
 libclingcon/src/solver.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index b8cae37..4e9d55b 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -206,15 +206,21 @@ class Solver::Level {
 
         solver.inactive_.erase(std::remove_if(solver.inactive_.begin(), solver.inactive_.end(),
                                               [in_removed](auto *cs) {
+                                                  if (!in_removed(*cs)) {
+                                                      return false;
+                                                  }
                                                   cs->mark_active();
-                                                  return in_removed(*cs);
+                                                  return true;
                                               }),
                                solver.inactive_.end());
 
         solver.todo_.erase(std::remove_if(solver.todo_.begin(), solver.todo_.end(),
                                           [in_removed](auto *cs) {
+                                              if (!in_removed(*cs)) {
+                                                  return false;
+                                              }
                                               cs->mark_todo(false);
-                                              return in_removed(*cs);
+                                              return true;
                                           }),
                            solver.todo_.end());
     }
-- 
2.43.0


From 38145dbf9ec54df704c4dafa6ede1d1516b0b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 14/27] fix: refresh term bounds before translating distinct
 constraints

In multi-shot solving, the bounds stored for the terms of a distinct
constraint could stem from the last assignment of the previous solve call.
Translating the constraint with such bounds lost values and hence admitted
solutions violating the constraint.
---
 libclingcon/src/constraints.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 237898f..1556866 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -843,6 +843,9 @@ class DistinctConstraintState final : public AbstractConstraintState {
     //! Translate small enough distinct constraints to weight constraints.
     [[nodiscard]] auto translate(Config const &config, Solver &solver, InitClauseCreator &cc, ConstraintVec &added)
         -> std::pair<bool, bool> override {
+        // the bounds of terms might be outdated after backtracking
+        update_(solver);
+
         if (!estimate_(config.distinct_limit)) {
             return {true, false};
         }
-- 
2.43.0


From f2f5955637edc962d421e330e49728c436b5df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 15/27] fix: reject numbers in place of variables in dom
 statements

---
 libclingcon/src/parsing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 5ee7324..49c0d1e 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -802,6 +802,7 @@ void parse_show(AbstractConstraintBuilder &builder, Clingo::TheoryAtom const &at
 
     check_syntax(atom.has_guard(), "Invalid Syntax: invalid dom statement");
     auto var = evaluate(atom.guard().second);
+    check_syntax(var.type() != Clingo::SymbolType::Number, "Invalid Syntax: invalid dom statement");
 
     return builder.add_dom(builder.solver_literal(atom.literal()), builder.add_variable(var), elements);
 }
-- 
2.43.0


From 05f2308ed0fe752165ff8bd9ab52310870db2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 16/27] fix: do not translate to weight constraints whose sum
 of weights is out of range

---
 libclingcon/src/constraints.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 1556866..9406186 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -499,6 +499,7 @@ class SumConstraintState : public AbstractConstraintState {
         // Note: this magic number can be dangerous if there is a huge number of
         // variables.
         std::vector<Clingo::WeightedLiteral> wlits;
+        sum_t total = 0;
         for (auto [co, var] : constraint_) {
             auto &vs = solver.var_state(var);
             if (co > 0) {
@@ -507,6 +508,7 @@ class SumConstraintState : public AbstractConstraintState {
                 assert(value >= vs.lower_bound());
                 for (sum_t i = vs.lower_bound(), e = std::min<sum_t>(value + 1, vs.upper_bound()); i != e; ++i) {
                     wlits.emplace_back(-solver.get_literal(cc, vs, static_cast<val_t>(i)), co);
+                    total += co;
                 }
             } else {
                 auto diff = slack + static_cast<sum_t>(co) * vs.upper_bound();
@@ -514,10 +516,14 @@ class SumConstraintState : public AbstractConstraintState {
                 assert(value <= vs.upper_bound());
                 for (sum_t i = std::max<sum_t>(value - 1, vs.lower_bound()), e = vs.upper_bound(); i != e; ++i) {
                     wlits.emplace_back(solver.get_literal(cc, vs, static_cast<val_t>(i)), -co);
+                    total -= co;
                 }
             }
         }
-        if (std::numeric_limits<val_t>::min() < slack && slack < std::numeric_limits<val_t>::max()) {
+        // Note: The solver cannot handle weight constraints with larger sums
+        // of weights correctly.
+        if (std::numeric_limits<val_t>::min() < slack && slack < std::numeric_limits<val_t>::max() &&
+            total <= MAX_VAL) {
             // Note: For strict constraints, we can actually use the
             // equivalence here and only add one weight constraint instead of
             // two. In the current system design, this requires storing the
-- 
2.43.0


From 8ee2296cb7e1993e4bdb5888b2fc97f0636c09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 17/27] fix: check that the constant of translated objectives
 is representable

---
 libclingcon/src/constraints.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 9406186..da39864 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -759,14 +759,17 @@ class MinimizeConstraintState : public AbstractConstraintState {
         }
 
         solver.enable_translate_minimize();
-        cc.add_minimize(TRUE_LIT, -constraint_.adjust(), 0);
+        // Note: The constant is added at once because the solver does not check
+        // for overflows when summing up weights of true literals.
+        sum_t fixed = -static_cast<sum_t>(constraint_.adjust());
         for (auto [co, var] : constraint_) {
             auto &vs = solver.var_state(var);
-            cc.add_minimize(TRUE_LIT, safe_mul(co, vs.min_bound()), 0);
+            fixed = safe_add<sum_t>(fixed, safe_mul<sum_t>(co, vs.min_bound()));
             for (auto value = vs.min_bound(); value < vs.max_bound(); ++value) {
                 cc.add_minimize(-solver.get_literal(cc, vs, value), co, 0);
             }
         }
+        cc.add_minimize(TRUE_LIT, safe_cast<val_t>(fixed), 0);
 
         return {true, true};
     }
-- 
2.43.0


From 16a35ffee964142a3fd24eac36fb7078e12b07c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 18/27] hook: access for verification to bounds and constraints
 (CLINGCON_VERIF)

---
 libclingcon/clingcon/propagator.hh | 4 ++++
 libclingcon/clingcon/solver.hh     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libclingcon/clingcon/propagator.hh b/libclingcon/clingcon/propagator.hh
index 6c719a9..4477920 100644
--- a/libclingcon/clingcon/propagator.hh
+++ b/libclingcon/clingcon/propagator.hh
@@ -150,6 +150,10 @@ class Propagator final : public Clingo::Heuristic {
     auto remove_minimize() -> UniqueMinimizeConstraint;
 
   private:
+#ifdef CLINGCON_VERIF
+    friend struct VerifAccess;
+#endif
+
     //! Get the solver associated with the given `thread_id`.
     [[nodiscard]] auto solver_(uint32_t thread_id) -> Solver & {
         assert(thread_id < solvers_.size());
diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index c2ee95f..6bd4641 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -780,6 +780,10 @@ class Solver {
     //! @}
 
   private:
+#ifdef CLINGCON_VERIF
+    friend struct VerifAccess;
+#endif
+
     //! Update preceeding and succeeding literals of order literal with the
     //! given value.
     auto update_litmap_(VarState &vs, lit_t lit, val_t value) -> std::pair<lit_t, lit_t>;
-- 
2.43.0


From 0ba305d82e7e4be9a3dde2085a71acd80fad34f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 19/27] fix: number of constraints of a step wrapped around
 when constraints of earlier steps were removed

---
 libclingcon/clingcon/base.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index cc4fc8a..f8cf1a3 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -187,7 +187,7 @@ struct Statistics {
     double time_translate = 0;
     double time_simplify = 0;
     uint64_t num_variables = 0;
-    uint64_t num_constraints = 0;
+    int64_t num_constraints = 0;
     uint64_t num_clauses = 0;
     uint64_t num_literals = 0;
     uint64_t translate_removed = 0;
-- 
2.43.0


From 4c751b0e9df63653876692afa1eca78304dffc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 20/27] fix: decide function of later theories depended on the
 first theory registered in the process

---
 libclingcon/src/clingcon.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index 6f33996..36391ff 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -347,9 +347,11 @@ extern "C" auto clingcon_register(clingcon_theory_t *theory, clingo_control_t *c
         has_heuristic = sconfig.heuristic != Heuristic::None;
     }
 
-    static clingo_propagator_t propagator = {init, propagate, undo, check, has_heuristic ? decide : nullptr};
+    static clingo_propagator_t propagator = {init, propagate, undo, check, nullptr};
+    static clingo_propagator_t propagator_heuristic = {init, propagate, undo, check, decide};
     return clingo_control_add(control, "base", nullptr, 0, Clingcon::THEORY) &&
-           clingo_control_register_propagator(control, &propagator, &theory->propagator, false);
+           clingo_control_register_propagator(control, has_heuristic ? &propagator_heuristic : &propagator,
+                                              &theory->propagator, false);
 }
 
 extern "C" auto clingcon_rewrite_ast(clingcon_theory_t *theory, clingo_ast_t *ast, clingcon_ast_callback_t add,
-- 
2.43.0


From a3861e1c59553e31f2e698abf813e759ad575499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 21/27] fix: reject empty and abbreviated option values

---
 libclingcon/src/clingcon.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index 36391ff..aab9740 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -120,6 +120,11 @@ template <typename... Args> [[nodiscard]] auto format(Args &&...args) -> std::st
     return oss.str();
 }
 
+[[nodiscard]] auto str_equal(char const *begin, char const *end, char const *str) -> bool {
+    auto len = end != nullptr ? static_cast<size_t>(end - begin) : std::strlen(begin);
+    return len == std::strlen(str) && std::strncmp(begin, str, len) == 0;
+}
+
 template <class T> [[nodiscard]] auto strtonum(char const *ib, char const *ie) -> T {
     if (!ie) {
         ie = ib + std::strlen(ib); // NOLINT
@@ -141,10 +146,10 @@ template <class T>
                                    T min = std::numeric_limits<T>::lowest(), T max = std::numeric_limits<T>::max())
     -> T {
     assert(min <= max);
-    if (strncmp(begin, "min", end - begin) == 0) {
+    if (str_equal(begin, end, "min")) {
         return min;
     }
-    if (strncmp(begin, "max", end - begin) == 0) {
+    if (str_equal(begin, end, "max")) {
         return max;
     }
     auto res = strtonum<T>(begin, end);
@@ -211,13 +216,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
 }
 
 [[nodiscard]] auto parse_bool(char const *begin, char const *end = nullptr) -> bool {
-    size_t len = end != nullptr ? end - begin : std::strlen(begin);
-    if (std::strncmp(begin, "true", len) == 0 || std::strncmp(begin, "yes", len) == 0 ||
-        std::strncmp(begin, "1", len) == 0) {
+    if (str_equal(begin, end, "true") || str_equal(begin, end, "yes") || str_equal(begin, end, "1")) {
         return true;
     }
-    if (std::strncmp(begin, "false", len) == 0 || std::strncmp(begin, "no", len) == 0 ||
-        std::strncmp(begin, "0", len) == 0) {
+    if (str_equal(begin, end, "false") || str_equal(begin, end, "no") || str_equal(begin, end, "0")) {
         return false;
     }
     throw std::invalid_argument("invalid argument");
@@ -247,10 +249,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "+", comma - value) == 0) {
+    if (str_equal(value, comma, "+")) {
         return {std::numeric_limits<val_t>::max(), thread};
     }
-    if (std::strncmp(value, "-", comma - value) == 0) {
+    if (str_equal(value, comma, "-")) {
         return {std::numeric_limits<val_t>::min(), thread};
     }
     return {parse_range_num<val_t>(value, comma), thread};
@@ -272,10 +274,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "none", comma - value) == 0) {
+    if (str_equal(value, comma, "none")) {
         return {static_cast<val_t>(Heuristic::None), thread};
     }
-    if (std::strncmp(value, "max-chain", comma - value) == 0) {
+    if (str_equal(value, comma, "max-chain")) {
         return {static_cast<val_t>(Heuristic::MaxChain), thread};
     }
     throw std::invalid_argument("invalid argument");
-- 
2.43.0


From fc6b28f69d18cfccedbedaac7324d118a48b7d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 22/27] fix: reject negative values for unsigned options and
 accept the full range of the total clause limit

---
 libclingcon/src/clingcon.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index aab9740..e2c75ca 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -32,6 +32,7 @@
 #include <map>
 #include <sstream>
 #include <stdexcept>
+#include <type_traits>
 
 #define CLINGCON_TRY try // NOLINT
 #define CLINGCON_CATCH                                                                                                 \
@@ -129,6 +130,9 @@ template <class T> [[nodiscard]] auto strtonum(char const *ib, char const *ie) -
     if (!ie) {
         ie = ib + std::strlen(ib); // NOLINT
     }
+    if (std::is_unsigned_v<T> && ib != ie && *ib == '-') {
+        throw std::runtime_error("nonnegative number expected");
+    }
     std::istringstream iss{std::string{ib, ie}};
     iss.imbue(std::locale::classic());
     iss.exceptions(std::iostream::failbit);
@@ -259,10 +263,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
 }
 
 [[nodiscard]] auto parse_translate_clause(char const *value) -> std::pair<uint32_t, std::optional<uint64_t>> {
-    std::optional<val_t> total = std::nullopt;
+    std::optional<uint64_t> total = std::nullopt;
     char const *comma = find_str(value, ',');
     if (*comma != '\0') {
-        total = parse_num<val_t>(comma + 1); // NOLINT
+        total = parse_num<uint64_t>(comma + 1); // NOLINT
     }
     return {parse_range_num<uint32_t>(value, comma), total};
 }
-- 
2.43.0


From fd7ab35041fc49d8b23fc79a42681ffdc062fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 23/27] fix: propagate upper bounds of linear constraints to
 their fixpoint

The last value was skipped when tightening upper bounds. The missing
propagation let literals become fixed while adding translated constraints,
which then falsified the literals of satisfied weight constraints.
---
 libclingcon/src/constraints.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index da39864..643b24c 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -212,7 +212,7 @@ template <bool tagged, typename T> class SumConstraintStateImpl final : public T
                 value_r = vs_r.lower_bound() + delta_r;
                 assert(slack - co_r * delta_r < 0 && 0 <= slack - co_r * (delta_r - 1));
                 // values above the upper bound are already true;
-                if (value_r >= vs_r.upper_bound()) {
+                if (value_r > vs_r.upper_bound()) {
                     continue;
                 }
                 // get the literal of the value;
-- 
2.43.0


From a5896924f1ec4b49edef99bd9d7a639392c44e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 24/27] fix: propagate distinct constraints when upper bounds
 of terms change

The direction of the change was ignored, so that terms with positive
coefficients were only checked against assigned terms at their lower bound
(and terms with negative coefficients only at their upper bound).
---
 libclingcon/src/constraints.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 643b24c..68fa0f9 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -948,11 +948,10 @@ class DistinctConstraintState final : public AbstractConstraintState {
     //! Add an element whose bound has changed to the todo list and mark it as
     //! dirty.
     [[nodiscard]] auto update(val_t i, val_t diff) -> bool override {
-        static_cast<void>(diff);
         uint32_t idx = std::abs(i) - 1;
 
         mark_dirty_(idx);
-        mark_todo_(i, idx);
+        mark_todo_((i > 0) == (diff > 0) ? 1 : -1, idx);
         return true;
     }
 
-- 
2.43.0


From 1003a91ecfc8875162775a11fc00330ce62fcafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 25/27] fix: watch order literals in threads added between
 solve calls

Watches added in earlier steps are not in effect for threads that are added
later on. Hence, add watches for all order literals if the number of threads
increases.
---
 libclingcon/clingcon/solver.hh |  6 ++++++
 libclingcon/src/propagator.cc  |  3 +++
 libclingcon/src/solver.cc      | 11 +++++++++++
 3 files changed, 20 insertions(+)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 6bd4641..996ba51 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -739,6 +739,12 @@ class Solver {
     //! This function must be called on the top level.
     void copy_state(Solver const &master);
 
+    //! Add watches for all order literals.
+    //!
+    //! Watches added in previous steps are not in effect for threads that are
+    //! added later.
+    void add_watches(AbstractClauseCreator &cc);
+
     //! Mark the number of static variables.
     //!
     //! This function has to be called at the end of propagator initialization
diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 518c85f..0c5e565 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -438,6 +438,9 @@ void Propagator::init(Clingo::PropagateInit &init) {
 
     // copy order literals from master to other states
     auto n = static_cast<size_t>(init.number_of_threads());
+    if (solvers_.size() < n) {
+        master.add_watches(cc);
+    }
     for (size_t i = solvers_.size(); i < n; ++i) {
         solvers_.emplace_back(config_.solver_config(i), stats_step_.solver_stats(i));
     }
diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 4e9d55b..84640d5 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -410,6 +410,17 @@ void Solver::copy_state(Solver const &master) {
     Level::copy_state(*this, master);
 }
 
+void Solver::add_watches(AbstractClauseCreator &cc) {
+    size_t offset = 0;
+    for (auto &olit : litmap_) {
+        if (auto lit = olit.map_lit(offset); lit != 0) {
+            cc.add_watch(lit);
+            cc.add_watch(-lit);
+        }
+        ++offset;
+    }
+}
+
 auto Solver::add_variable(val_t min_int, val_t max_int) -> var_t {
     var_t idx = var2vs_.size();
     var2vs_.emplace_back(idx, min_int, max_int);
-- 
2.43.0


From 8e442c50948f72d30609adb8217c0f99526bf0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 26/27] fix: integrate pending facts before simplification ends

Facts for variables introduced in later steps were only integrated during
search. Hence, constraints were translated using outdated bounds: the
translation of an objective could enumerate the whole range of a variable
(which practically never ends with default bounds).
---
 libclingcon/src/solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 84640d5..cdf8d12 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -669,7 +669,7 @@ auto Solver::simplify(AbstractClauseCreator &cc, bool check_state) -> bool {
         }
 
         auto trail_offset = trail.size();
-        if (trail_offset_ == trail_offset && todo_.empty()) {
+        if (trail_offset_ == trail_offset && todo_.empty() && factmap_.empty()) {
             return true;
         }
 
-- 
2.43.0


From 99e45411a2ff12baaf503314ba87f505668477bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:36 +0000
Subject: [PATCH 27/27] fix: watch order literals in threads that did not take
 part in an earlier step

Watches of a step are lost for threads that did not start because the step was
interrupted or decided right away. Hence, add watches for all order literals
whenever there is more than one thread.
---
 libclingcon/src/propagator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 0c5e565..6eb59b8 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -438,7 +438,9 @@ void Propagator::init(Clingo::PropagateInit &init) {
 
     // copy order literals from master to other states
     auto n = static_cast<size_t>(init.number_of_threads());
-    if (solvers_.size() < n) {
+    // Note: Threads might be added later on and an interrupted step might end
+    // before a thread starts; in both cases, watches of earlier steps are lost.
+    if (n > 1) {
         master.add_watches(cc);
     }
     for (size_t i = solvers_.size(); i < n; ++i) {
-- 
2.43.0

