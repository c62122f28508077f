From a455fc98c4ed2f04272b5967615ed7177207e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 01/15] fix: pass options when configuring bound propagation

clingolpx_configure handed a pointer to the propagate mode to
parse_propagate, which expects a pointer to the options, and thus wrote
out of bounds for the key propagate-bounds.
---
 libclingo-lpx/src/clingo-lpx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 1393831..cedac5e 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -389,7 +389,7 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
         }
         if (strcmp(key, "propagate-bounds") == 0) {
-            return check_parse("propagate-bounds", parse_propagate(value, &theory->options.propagate_mode));
+            return check_parse("propagate-bounds", parse_propagate(value, &theory->options));
         }
         if (strcmp(key, "select") == 0) {
             return check_parse("select", parse_select(value, &theory->options));
-- 
2.43.0


From 784143525dd0917a2cc4d06c17b372e30aee8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 02/15] fix: parse objective values when configuring the
 objective

clingolpx_configure used the Boolean parser for the key objective. It
refused all valid values and wrote a Boolean into the step otherwise.
---
 libclingo-lpx/src/clingo-lpx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index cedac5e..00b5568 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -383,7 +383,7 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("strict", parse_bool(value, &theory->strict));
         }
         if (strcmp(key, "objective") == 0) {
-            return check_parse("objective", parse_bool(value, &theory->options.global_objective));
+            return check_parse("objective", parse_objective(value, &theory->options));
         }
         if (strcmp(key, "propagate-conflicts") == 0) {
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
-- 
2.43.0


From 1addcbe9b27c7b2fee5ffae873f49e28d8339316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 03/15] fix: report the right key for invalid store values

---
 libclingo-lpx/src/clingo-lpx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 00b5568..f03f677 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -395,7 +395,7 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("select", parse_select(value, &theory->options));
         }
         if (strcmp(key, "store") == 0) {
-            return check_parse("select", parse_store(value, &theory->options));
+            return check_parse("store", parse_store(value, &theory->options));
         }
         std::ostringstream msg;
         msg << "invalid configuration key '" << key << "'";
-- 
2.43.0


From dcd084f95de894a6326a3c1019720ccf51f4c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 04/15] fix: check constraints without variables the right way
 round

A constraint over an empty sum has the form 0 rel rhs. The comparisons of
the right hand side with zero were mirrored so that violated constraints
were accepted and satisfied ones refused.
---
 libclingo-lpx/src/solving.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 77c5f07..e8caf0d 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -297,25 +297,25 @@ auto Solver<Value>::prepare(Clingo::PropagateInit &init, SymbolMap const &symbol
             }
             switch (x.rel) {
                 case Relation::Less: {
-                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::LessEqual: {
-                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::Greater: {
-                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::GreaterEqual: {
-                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
-- 
2.43.0


From 91f2d547af077c42647c656df5a7ea9a21b06fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 05/15] fix: restore both bounds when undoing an equality

When an equality updated both bounds of a variable, only the previous
upper bound was stored and restored for the lower bound, too. Moreover,
if just the lower bound was updated, an unrelated entry of the trail was
changed. Now both bounds are stored individually.
---
 libclingo-lpx/src/solving.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index e8caf0d..351cce7 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -191,12 +191,7 @@ template <typename Value>
 auto Solver<Value>::Variable::update_lower(Solver &s, Clingo::Assignment ass, Bound const &bound) -> bool {
     if (!has_lower() || bound.value > lower()) {
         if (!has_lower() || ass.level(lower_bound->lit) < ass.decision_level()) {
-            if (upper_bound != &bound) {
-                s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
-            } else {
-                // Note: this assumes that update_lower is called right after update_upper for the same bound
-                std::get<1>(s.bound_trail_.back()) = BoundRelation::Equal;
-            }
+            s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
         }
         lower_bound = &bound;
     }
@@ -836,8 +831,8 @@ template <typename Value> void Solver<Value>::undo() {
                     break;
                 }
                 case BoundRelation::Equal: {
-                    variables_[var].upper_bound = bound;
-                    variables_[var].lower_bound = bound;
+                    // upper and lower bounds are stored separately
+                    assert(false);
                     break;
                 }
             }
-- 
2.43.0


From 244f9544e59d3bf7a85c1c66e169afdac4c8c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 06/15] fix: give conditional constants their value

The placeholder for constants was used like a variable in the equation
for conditional constants. The constant was thus unconstrained if its
condition was true.
---
 libclingo-lpx/src/parsing.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 5694683..ebb6110 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -346,7 +346,12 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
                 if (res.second) {
                     auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
-                    iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    if (is_invalid(it->var)) {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
+                    } else {
+                        iqs.emplace_back(
+                            Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    }
                 }
                 it->var = res.first->second;
             }
-- 
2.43.0


From ab5d4b5ab1f47a01032f0da96b1939730c6d1c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 07/15] fix: report division by zero in nested expressions as
 syntax error

The process was aborted instead.
---
 libclingo-lpx/src/parsing.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index ebb6110..eb31e00 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -203,7 +203,10 @@ auto evaluate(bool num_str, Clingo::TheoryTerm const &term) -> std::variant<Rati
     }
     if (match(term, "/", 2)) {
         return evaluate(num_str, term.arguments().front(), term.arguments().back(),
-                        [](Rational &&a, Rational &&b) { return std::move(a) / std::move(b); });
+                        [](Rational &&a, Rational &&b) {
+                            check_syntax(b != 0);
+                            return std::move(a) / std::move(b);
+                        });
     }
 
     if (match(term, "-", 1)) {
-- 
2.43.0


From c8862f9ab8a3953ab249a49a27ab4f2eb818d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 08/15] fix: compare big integers correctly

The representation of the second integer was interpreted as its value,
which only works for small numbers.
---
 libclingo-lpx/src/number_flint.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 77ba3f2..39443c8 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -412,7 +412,7 @@ inline auto operator<<(std::ostream &out, Integer const &a) -> std::ostream & {
 
 [[nodiscard]] inline auto compare(Integer const &a, fixed_int b) -> int { return fmpz_cmp_si(&a.num_, b); }
 
-[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp_si(&a.num_, b.num_); }
+[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp(&a.num_, &b.num_); }
 
 // gcd
 
-- 
2.43.0


From 657c8de8d1799cee019133367befaa2c3315452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 09/15] fix: canonicalize rationals when parsing and refuse
 zero denominators

With current FLINT versions, the result of parsing a rational was not
canonicalized. Values like 2/4, 1/-2, or 1/0 given as step of the
objective were used as is.
---
 libclingo-lpx/src/number_flint.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 39443c8..5c55802 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -458,9 +458,12 @@ inline Rational::Rational(char const *val, int radix) : Rational() {
         if (fmpz_set_str(&num_.den, buf.substr(pos + 1).c_str(), radix) != 0) {
             throw std::runtime_error("could not parse number");
         }
-        fmpq_canonicalise(&num_);
     }
 #endif
+    if (fmpz_is_zero(&num_.den) != 0) {
+        throw std::runtime_error("could not parse number");
+    }
+    fmpq_canonicalise(&num_);
 }
 
 inline Rational::Rational(std::string const &val, int radix) : Rational(val.c_str(), radix) {}
-- 
2.43.0


From 095cbcc1f922d292ca44cda63d2128d644272205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 10/15] fix: do not modify facts while other threads read them

---
 libclingo-lpx/src/solving.cc | 8 ++++++--
 libclingo-lpx/src/solving.hh | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 351cce7..ffe13e9 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1039,6 +1039,10 @@ auto Solver<Value>::adjust(Clingo::Assignment const &assign, Clingo::literal_t l
 }
 
 template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &init) {
+    // Other threads read the facts during search. So the facts obtained in the
+    // previous step can only be added here.
+    facts_.insert(facts_.end(), step_facts_.begin(), step_facts_.end());
+    step_facts_.clear();
     facts_offset_ = facts_.size();
     if (facts_offset_ > 0 || options_.global_objective.has_value()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Both);
@@ -1120,7 +1124,7 @@ template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl
     auto ass = ctl.assignment();
     auto &[offset, slv] = slvs_[ctl.thread_id()];
     if (ass.decision_level() == 0 && offset < facts_offset_) {
-        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts_.data() + offset, facts_offset_}); // NOLINT
+        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts_.data() + offset, facts_offset_ - offset}); // NOLINT
         offset = facts_offset_;
         // can happen in case of a top-level conflict
         if (!res) {
@@ -1151,7 +1155,7 @@ void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::Literal
     auto ass = ctl.assignment();
     if (ass.decision_level() == 0 && ctl.thread_id() == 0) {
         // Note to self: auxiliary variables introduced during solving cannot become facts
-        facts_.insert(facts_.end(), changes.begin(), changes.end());
+        step_facts_.insert(step_facts_.end(), changes.begin(), changes.end());
     }
     auto &[offset, slv] = slvs_[ctl.thread_id()];
     static_cast<void>(slv.solve(ctl, changes));
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index e9c1443..21fb748 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -306,6 +306,8 @@ template <typename Value> class Propagator : public Clingo::Heuristic {
     std::vector<Inequality> iqs_;
     size_t facts_offset_{0};
     std::vector<Clingo::literal_t> facts_;
+    //! Facts gathered by the first thread in the current step.
+    std::vector<Clingo::literal_t> step_facts_;
     std::vector<std::pair<size_t, Solver<Value>>> slvs_;
     ObjectiveState<Value> objective_state_;
     Options options_;
-- 
2.43.0


From d4247da6780c6a4af3a4a11c80c6080355a83aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 11/15] fix: sum up step statistics over all threads

---
 libclingo-lpx/src/solving.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index ffe13e9..8936cef 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1094,10 +1094,12 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_simplex = accu.add_subkey("Simplex", Clingo::StatisticsType::Map);
     auto accu_pivots = accu_simplex.add_subkey("Pivots", Clingo::StatisticsType::Value);
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
+    step_pivots.set_value(0);
+    step_propagated_bounds.set_value(0);
     for (auto const &[offset, slv] : slvs_) {
-        step_pivots.set_value(slv.statistics().pivots);
+        step_pivots.set_value(step_pivots.value() + slv.statistics().pivots);
         accu_pivots.set_value(accu_pivots.value() + slv.statistics().pivots);
-        step_propagated_bounds.set_value(slv.statistics().propagated_bounds);
+        step_propagated_bounds.set_value(step_propagated_bounds.value() + slv.statistics().propagated_bounds);
         accu_propagated_bounds.set_value(accu_propagated_bounds.value() + slv.statistics().propagated_bounds);
     }
 }
-- 
2.43.0


From b379822a41409d0331bead73f7f313d573c3df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 12/15] fix: optimize also if preprocessing eliminates
 variables

---
 libclingo-lpx/src/solving.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 8936cef..da4e1ee 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1065,6 +1065,14 @@ template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &in
         init.add_watch(x.lit);
     }
 
+    // Optimal assignments are computed when the assignment becomes total, which
+    // never happens if preprocessing eliminates variables.
+    if (!objective_.empty()) {
+        for (auto lit : init.assignment()) {
+            init.freeze_literal(lit);
+        }
+    }
+
     objective_state_.reset();
 
     slvs_.clear();
-- 
2.43.0


From c755be063619ad525e9f26aeb1daaa93b5354969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 13/15] fix: read decimals of any length

---
 libclingo-lpx/src/parsing.cc | 37 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index eb31e00..e0aa5e6 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -6,7 +6,6 @@
 #include <algorithm>
 #include <iterator>
 #include <optional>
-#include <regex>
 #include <stdexcept>
 #include <unordered_map>
 #include <variant>
@@ -104,26 +103,36 @@ struct AS {
     if (len <= 2 || name[0] != '"' || name[len - 1] != '"') {
         return std::nullopt;
     }
-    std::regex const rgx{"(-)?([0-9]+)(\\.([0-9]+))?"};
-    std::cmatch match;
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-    if (!std::regex_match(name + 1, name + len - 1, match, rgx)) {
+    // Note that a regular expression is not an option here because matching one
+    // needs stack space linear in the length of the number.
+    // NOLINTBEGIN(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+    auto const *it = name + 1;
+    auto const *ie = name + len - 1;
+    auto is_digit = [](char c) { return '0' <= c && c <= '9'; };
+    bool const neg = *it == '-';
+    if (neg) {
+        ++it;
+    }
+    auto const *int_end = std::find_if_not(it, ie, is_digit);
+    if (int_end == it) {
         return std::nullopt;
     }
-    std::string a = match[2];
-    if (match[4].matched) {
-        auto const *ib = match[4].first;
-        auto const *it = match[4].second;
-        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        for (; it != ib && *(it - 1) == '0'; --it) {
+    std::string a{it, int_end};
+    if (int_end != ie) {
+        auto const *frac_begin = int_end + 1;
+        if (*int_end != '.' || frac_begin == ie || std::find_if_not(frac_begin, ie, is_digit) != ie) {
+            return std::nullopt;
+        }
+        for (; ie != frac_begin && *(ie - 1) == '0'; --ie) {
         }
-        a.append(ib, it);
+        a.append(frac_begin, ie);
         a.append("/1");
-        a.append(it - ib, '0');
+        a.append(ie - frac_begin, '0');
     }
+    // NOLINTEND(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
     Rational n{a, 10};
-    if (match[1].matched) {
+    if (neg) {
         n.neg();
     }
     n.canonicalize();
-- 
2.43.0


From d81d4fbdbbcd0fbf93560bebc0758e968c4e7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 14/15] fix: name the option when refusing an objective step

---
 libclingo-lpx/src/clingo-lpx.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index f03f677..a6896fd 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -307,8 +307,12 @@ auto parse_objective(const char *value, void *data) -> bool {
         options.global_objective = RationalQ{Rational{0}, Rational{1}};
         return true;
     }
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-    options.global_objective = RationalQ{Rational{value, 10}};
+    try {
+        // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+        options.global_objective = RationalQ{Rational{value, 10}};
+    } catch (std::runtime_error const &) {
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From faa60666f2f13dbb58722188e76019a12ae08fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 15/15] fix: integrate the facts of all threads in later steps

---
 libclingo-lpx/src/solving.cc | 32 +++++++++++++++++---------------
 libclingo-lpx/src/solving.hh |  9 +++++----
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index da4e1ee..6296345 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1039,12 +1039,12 @@ auto Solver<Value>::adjust(Clingo::Assignment const &assign, Clingo::literal_t l
 }
 
 template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &init) {
-    // Other threads read the facts during search. So the facts obtained in the
-    // previous step can only be added here.
-    facts_.insert(facts_.end(), step_facts_.begin(), step_facts_.end());
-    step_facts_.clear();
-    facts_offset_ = facts_.size();
-    if (facts_offset_ > 0 || options_.global_objective.has_value()) {
+    // Facts obtained in previous steps have to be integrated by the thread that
+    // obtained them. Facts of threads that do not exist anymore are dropped; the
+    // literals are propagated again if the threads are added back.
+    facts_.resize(init.number_of_threads());
+    auto has_facts = std::any_of(facts_.begin(), facts_.end(), [](auto const &facts) { return !facts.empty(); });
+    if (has_facts || options_.global_objective.has_value()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Both);
     }
 
@@ -1078,7 +1078,8 @@ template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &in
     slvs_.clear();
     slvs_.reserve(init.number_of_threads());
     for (size_t i = 0, e = init.number_of_threads(); i != e; ++i) {
-        slvs_.emplace_back(std::piecewise_construct, std::forward_as_tuple(0), std::forward_as_tuple(options_));
+        slvs_.emplace_back(std::piecewise_construct, std::forward_as_tuple(facts_[i].size()),
+                           std::forward_as_tuple(options_));
         if (!slvs_.back().second.prepare(init, var_map_, iqs_, objective_, i == 0)) {
             return;
         }
@@ -1104,7 +1105,7 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
     step_pivots.set_value(0);
     step_propagated_bounds.set_value(0);
-    for (auto const &[offset, slv] : slvs_) {
+    for (auto const &[n_facts, slv] : slvs_) {
         step_pivots.set_value(step_pivots.value() + slv.statistics().pivots);
         accu_pivots.set_value(accu_pivots.value() + slv.statistics().pivots);
         step_propagated_bounds.set_value(step_propagated_bounds.value() + slv.statistics().propagated_bounds);
@@ -1132,10 +1133,10 @@ template <typename Value> void Propagator<Value>::on_model(Clingo::Model const &
 
 template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl &ctl) {
     auto ass = ctl.assignment();
-    auto &[offset, slv] = slvs_[ctl.thread_id()];
-    if (ass.decision_level() == 0 && offset < facts_offset_) {
-        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts_.data() + offset, facts_offset_ - offset}); // NOLINT
-        offset = facts_offset_;
+    auto &[n_facts, slv] = slvs_[ctl.thread_id()];
+    if (ass.decision_level() == 0 && n_facts > 0) {
+        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts_[ctl.thread_id()].data(), n_facts});
+        n_facts = 0;
         // can happen in case of a top-level conflict
         if (!res) {
             return;
@@ -1163,11 +1164,12 @@ template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl
 template <typename Value>
 void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
     auto ass = ctl.assignment();
-    if (ass.decision_level() == 0 && ctl.thread_id() == 0) {
+    if (ass.decision_level() == 0) {
         // Note to self: auxiliary variables introduced during solving cannot become facts
-        step_facts_.insert(step_facts_.end(), changes.begin(), changes.end());
+        auto &facts = facts_[ctl.thread_id()];
+        facts.insert(facts.end(), changes.begin(), changes.end());
     }
-    auto &[offset, slv] = slvs_[ctl.thread_id()];
+    auto &[n_facts, slv] = slvs_[ctl.thread_id()];
     static_cast<void>(slv.solve(ctl, changes));
 }
 
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index 21fb748..eefe9b7 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -304,10 +304,11 @@ template <typename Value> class Propagator : public Clingo::Heuristic {
     SymbolVec var_vec_;
     std::vector<Term> objective_;
     std::vector<Inequality> iqs_;
-    size_t facts_offset_{0};
-    std::vector<Clingo::literal_t> facts_;
-    //! Facts gathered by the first thread in the current step.
-    std::vector<Clingo::literal_t> step_facts_;
+    //! The facts gathered by each thread. A thread never gets a fact twice but
+    //! the solvers below are created anew in each step.
+    std::vector<std::vector<Clingo::literal_t>> facts_;
+    //! The number of facts to integrate in the current step together with the
+    //! solver for each thread.
     std::vector<std::pair<size_t, Solver<Value>>> slvs_;
     ObjectiveState<Value> objective_state_;
     Options options_;
-- 
2.43.0

