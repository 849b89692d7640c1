From 12520ec63913144d894ffe740b8f42396a9db281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 01/25] fix: pass zero vertex instead of component index to
 zero propagation

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 54276a8..0bb2b9d 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -744,7 +744,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             auto &edge = edges_[edge_idx];
             auto &info = vertex_info_[edge.from];
             // check for conflicts
-            if (!state.graph.add_edge(ctl, edge_idx, info.cc)) {
+            if (!state.graph.add_edge(ctl, edge_idx, zero_vertices_[info.cc])) {
                 return;
             }
         }
-- 
2.43.0


From 9f94510a8000f68f972572138953f16989c51223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 02/25] fix: do not disable edges twice when combining zero
 with full propagation

---
 libclingo-dl/src/graph.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index a2867ca..fa421dd 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -858,7 +858,10 @@ template <typename T> auto Graph<T>::propagate_full_(Clingo::PropagateControl &c
     //
     // There is a negative cycle, if cost(x ->* u) + cost(v *<- y) - cost(x -> y) + cost(u -> v) is negative.
     ++stats_.edges_propagated;
-    disable_edge(xy_idx);
+    // Note: the edge might have been disabled by zero propagation already.
+    if (edge_is_enabled(xy_idx)) {
+        disable_edge(xy_idx);
+    }
     auto &xy = edges_[xy_idx];
     auto &x = vertices_[xy.from];
     auto &y = vertices_[xy.to];
-- 
2.43.0


From ef95b5ce472b16b168ba210e404842c0cad9dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 03/25] fix: compute relevance of paths correctly in the
 presence of parallel edges

---
 libclingo-dl/src/graph.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index fa421dd..b4b32e9 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -391,24 +391,21 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 // this. Explicitely using uv.from and uv.to is intended here.
                 auto c = cost(u_idx) + vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential();
                 assert(vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential() >= 0);
-                if (!visited(v_idx) || less(c, relevant_u, v_idx)) {
+                // The path is relevant if it contains the relevant edge.
+                bool relevant_uv = relevant_u || uv_idx == relevant_idx;
+                if (!visited(v_idx) || less(c, relevant_uv, v_idx)) {
+                    // vertex v became or lost relevance
                     bool relevant_v = relevant(v_idx);
+                    if (relevant_uv != relevant_v) {
+                        relevant(v_idx) = relevant_uv;
+                        num_relevant += relevant_uv ? 1 : -1;
+                    }
                     cost(v_idx) = c;
                     if (!visited(v_idx)) {
-                        // vertex v became relevant
-                        if (relevant_u && !relevant_v) {
-                            ++num_relevant;
-                        }
                         visited_set().push_back(to(uv_idx));
                         visited(v_idx) = true;
-                        relevant(v_idx) = relevant_u || uv_idx == relevant_idx;
                         costs_heap_.push(*this, v_idx);
                     } else {
-                        // vertex v became or lost relevance
-                        if (relevant_u != relevant_v) {
-                            relevant(v_idx) = relevant_u;
-                            num_relevant += relevant_u ? 1 : -1;
-                        }
                         costs_heap_.decrease(*this, v_idx);
                     }
                     path(v_idx) = uv_idx;
-- 
2.43.0


From 3dbd684307b14ef27283eb3f373be5d6c7863067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 04/25] fix: register decide callback depending on
 configuration of each theory

---
 libclingo-dl/src/clingo-dl.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 8efc17c..24d46b2 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -137,8 +137,10 @@ template <typename T> class DLPropagatorFacade : public PropagatorFacade {
   public:
     DLPropagatorFacade(clingo_control_t *control, PropagatorConfig const &conf) : prop_{step_, conf} {
         handle_error(clingo_control_add(control, "base", nullptr, 0, THEORY));
-        static clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
-                                           conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
+        // Note: whether to decide depends on the configuration of the theory at hand.
+        static clingo_propagator_t prop_check = {init<T>, propagate<T>, undo<T>, check<T>, nullptr};
+        static clingo_propagator_t prop_decide = {init<T>, propagate<T>, undo<T>, check<T>, decide<T>};
+        auto const &prop = conf.decision_mode != DecisionMode::Disabled ? prop_decide : prop_check;
         handle_error(clingo_control_register_propagator(control, &prop, &prop_, false));
     }
 
-- 
2.43.0


From 89828b595f52b48c4085b1af8ae0a1a638f4a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 05/25] fix: accumulate statistics if number of threads
 decreases

---
 libclingo-dl/src/propagator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 0bb2b9d..ea794fc 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -64,9 +64,9 @@ void Statistics::accu(Statistics const &x) {
     if (thread_statistics.size() < x.thread_statistics.size()) {
         thread_statistics.resize(x.thread_statistics.size());
     }
-    auto it = x.thread_statistics.begin();
-    for (auto &y : thread_statistics) {
-        y.accu(*it++);
+    auto it = thread_statistics.begin();
+    for (auto const &y : x.thread_statistics) {
+        (it++)->accu(y);
     }
 }
 
-- 
2.43.0


From 97e17932a10a2dd0538476ebd06d78f95c44583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 06/25] fix: report no values for threads without state

---
 libclingo-dl/src/propagator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index ea794fc..f3ee766 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -129,7 +129,8 @@ template <typename T> auto DLPropagator<T>::lookup(Clingo::Symbol symbol) -> ver
 }
 
 template <typename T> auto DLPropagator<T>::has_lower_bound(Clingo::id_t thread_id, vertex_t index) const -> bool {
-    return index < vertex_info_.size() && !is_zero_(index) && states_[thread_id].graph.has_value(index);
+    return index < vertex_info_.size() && thread_id < states_.size() && !is_zero_(index) &&
+           states_[thread_id].graph.has_value(index);
 }
 
 template <typename T> auto DLPropagator<T>::lower_bound(Clingo::id_t thread_id, vertex_t index) const -> value_t {
-- 
2.43.0


From 9596884e9f6389b4794a4481d9085bfc2802ef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 07/25] fix: detect overflows when parsing option values

---
 libclingo-dl/src/clingo-dl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 24d46b2..a620a78 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -27,6 +27,7 @@
 
 #include <clingo.h>
 #include <clingo.hh>
+#include <limits>
 #include <sstream>
 
 #define CLINGODL_TRY try // NOLINT
@@ -254,12 +255,11 @@ auto parse_uint64_pre(const char *value, void *data) -> char const * {
 
     for (; *it != '\0'; ++it) { // NOLINT
         if ('0' <= *it && *it <= '9') {
-            auto tmp = res;
-            res *= 10; // NOLINT
-            res += *it - '0';
-            if (res < tmp) {
+            uint64_t digit = *it - '0';
+            if (res > (std::numeric_limits<uint64_t>::max() - digit) / 10) { // NOLINT
                 return nullptr;
             }
+            res = res * 10 + digit; // NOLINT
         } else {
             break;
         }
-- 
2.43.0


From ee02fd1812f82125fc7881ca7921e2172cc02448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 08/25] fix: reject malformed values for option add-mutexes

---
 libclingo-dl/src/clingo-dl.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index a620a78..a63b0de 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -326,17 +326,15 @@ auto parse_mutex(const char *value, void *data) -> bool {
     if ((value = parse_uint64_pre(value, &x)) == nullptr) {
         return false;
     }
-    pc.mutex_size = x;
+    uint64_t cutoff = 0;
     if (*value == '\0') {
-        pc.mutex_cutoff = 10 * x; // NOLINT
-        return true;
-    }
-    if (*value == ',') {
-        if (!parse_uint64(value + 1, &x)) {
-            return false;
-        } // NOLINT
-        pc.mutex_cutoff = x;
+        constexpr auto max = std::numeric_limits<uint64_t>::max();
+        cutoff = x <= max / 10 ? 10 * x : max; // NOLINT
+    } else if (*value != ',' || !parse_uint64(value + 1, &cutoff)) {
+        return false;
     }
+    pc.mutex_size = x;
+    pc.mutex_cutoff = cutoff;
     return true;
 }
 
-- 
2.43.0


From 593b24ee5f829cd606f9019457102afa4342a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 09/25] fix: reject invalid values for option dl-heuristic

---
 libclingo-dl/src/clingo-dl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index a63b0de..f33be38 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -389,12 +389,14 @@ auto parse_sort(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_decide(const char *value, void *data) -> bool {
     DecisionMode mode = DecisionMode::Disabled;
-    if (iequals(value, "no")) {
+    if (iequals(value, "no") || iequals(value, "none")) {
         mode = DecisionMode::Disabled;
     } else if (iequals(value, "min")) {
         mode = DecisionMode::MinConflict;
     } else if (iequals(value, "max")) {
         mode = DecisionMode::MaxConflict;
+    } else {
+        return false;
     }
     static_cast<PropagatorConfig *>(data)->decision_mode = mode;
     return true;
-- 
2.43.0


From a56bb685a41f5948a7bc9c00799310e58576fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 10/25] fix: evaluate divisions in difference constraints

---
 libclingo-dl/src/parsing.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index a221c88..ba4ff34 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -340,6 +340,23 @@ void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol
                 }
             }
         }
+    } else if (match(term, "/", 2)) {
+        auto args = term.arguments();
+        CoVarVec<N> lhs;
+        parse_elem(args.front(), map_vert, lhs);
+        CoVarVec<N> rhs;
+        parse_elem(args.back(), map_vert, rhs);
+        auto sum = [](CoVarVec<N> const &vec) {
+            N ret = 0;
+            for (auto const &[co, var] : vec) {
+                check_syntax(!is_valid_var(var), "Invalid Syntax: only linear difference constraints are supported");
+                ret = safe_add<N>(ret, co);
+            }
+            return ret;
+        };
+        auto divisor = sum(rhs);
+        check_syntax(divisor != 0, "Invalid Syntax: division by zero");
+        res.emplace_back(safe_div<N>(sum(lhs), divisor), INVALID_VAR);
     } else if (term.type() == Clingo::TheoryTermType::Symbol) {
         if (auto val = parse_number<N>(term.name()); val) {
             res.emplace_back(*val, INVALID_VAR);
-- 
2.43.0


From 55dbe6118a1e5ca4a83c38345676f3eb7e234c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 11/25] fix: reject empty and non-finite numbers in strings

---
 libclingo-dl/src/parsing.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index ba4ff34..61d3e54 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -231,9 +231,12 @@ template <class N> [[nodiscard]] auto parse_number(char const *name) -> std::opt
     }
     char *parsed = nullptr;                    // NOLINT
     auto res = std::strtod(name + 1, &parsed); // NOLINT
-    if (parsed != name + len - 1) {            // NOLINT
+    if (parsed == name + 1 || parsed != name + len - 1) { // NOLINT
         return std::nullopt;
     }
+    if (!std::isfinite(res) || res < std::numeric_limits<N>::lowest() || res > std::numeric_limits<N>::max()) {
+        throw std::runtime_error("could not evaluate term: number out of range");
+    }
     auto ret = static_cast<N>(res);
     if (static_cast<double>(ret) != res) {
         throw std::runtime_error("could not evaluate term: for floating point numbers use option rdl");
-- 
2.43.0


From 1ff380735ee45475ad2c3168ee57ff3030f20e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 12/25] fix: keep integral arguments of variables integral if
 option rdl is used

---
 libclingo-dl/src/parsing.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 61d3e54..9f29f94 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -219,7 +219,14 @@ template <class N, class F, typename std::enable_if<std::is_floating_point_v<N>,
 [[nodiscard]] auto evaluate_binary(Clingo::TheoryTerm const &a, Clingo::TheoryTerm const &b, F &&f) -> Clingo::Symbol {
     auto ea = evaluate<N>(a);
     auto eb = evaluate<N>(b);
-    return Clingo::String(std::to_string(f(to_number<N>(ea), to_number<N>(eb))).c_str());
+    auto ret = f(to_number<N>(ea), to_number<N>(eb));
+    // Note: integral results over integers are kept as is to not change the identity of symbols.
+    if (ea.type() == Clingo::SymbolType::Number && eb.type() == Clingo::SymbolType::Number &&
+        ret >= std::numeric_limits<int>::lowest() && ret <= std::numeric_limits<int>::max() &&
+        static_cast<N>(static_cast<int>(ret)) == ret) {
+        return Clingo::Number(static_cast<int>(ret));
+    }
+    return Clingo::String(std::to_string(ret).c_str());
 }
 
 //! Parse a string to a number.
-- 
2.43.0


From 087ad30b486b6db779868839f946621e20233feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 13/25] fix: support symbolic terms as names of theory atoms in
 rewriting

---
 libclingo-dl/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 9f29f94..d3b14a3 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -60,7 +60,7 @@ auto match_constant(Clingo::AST::Node const &ast, char const *name) -> bool {
     using namespace Clingo::AST;
     switch (ast.type()) {
         case Type::SymbolicTerm: {
-            return ast.get<Clingo::Symbol>(Attribute::Term).match(name, 0);
+            return ast.get<Clingo::Symbol>(Attribute::Symbol).match(name, 0);
         }
         case Type::Function: {
             if (ast.get<int>(Attribute::External) != 0) {
@@ -132,12 +132,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0


From a0b34e7ecf5d6f1706a7af448577495365f622ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 14/25] fix: do not report lower bounds exceeding the minimum

During minimization, the search bound could exceed the upper bound. If no
model was found then, the lower bound derived from it was larger than the
actual minimum.
---
 app/lib/src/app.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 6a00b05..1ec7e6b 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -24,6 +24,7 @@
 
 #include <clingo-dl-app/app.hh>
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <limits>
@@ -119,7 +120,9 @@ auto Optimizer::on_model(Clingo::Model &model) -> bool {
     if (aux < std::numeric_limits<int_value_t>::min()) {
         aux = std::numeric_limits<int_value_t>::min();
     }
-    search_bound_ = static_cast<int_value_t>(aux);
+    // the search bound must not be weaker than the upper bound because the
+    // lower bound is derived from it
+    search_bound_ = std::min(static_cast<int_value_t>(aux), *upper_bound_);
 
     // update (exponential) adujustment value
     adjust_ = adjust_ * opt_cfg_.factor;
-- 
2.43.0


From 0356d5241f8cc27eb199c4b224e08f9ac73a31f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 15/25] fix: prevent overflows of bounds during minimization

With large step sizes, the search bound could get so close to the smallest
representable integer that adding the corresponding constraint failed (or
overflowed during propagation).
---
 app/lib/src/app.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 1ec7e6b..50fc5bc 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -117,8 +117,10 @@ auto Optimizer::on_model(Clingo::Model &model) -> bool {
     if (lower_bound_ && aux <= *lower_bound_) {
         aux = *lower_bound_ + 1.0;
     }
-    if (aux < std::numeric_limits<int_value_t>::min()) {
-        aux = std::numeric_limits<int_value_t>::min();
+    // leave room to sum up values because bounds close to the smallest integer
+    // overflow when adding the corresponding constraint
+    if (aux < std::numeric_limits<int_value_t>::min() / 2) {
+        aux = std::numeric_limits<int_value_t>::min() / 2;
     }
     // the search bound must not be weaker than the upper bound because the
     // lower bound is derived from it
-- 
2.43.0


From b2f46925221348d2b9eafd9ca7fe257335e49b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 16/25] fix: watch existing edges in threads added between
 solve calls

If the number of solver threads increased between two steps, the new threads
did not watch the literals of edges added in earlier steps. This lead to
missed conflicts and errors because of invalid solutions.
---
 libclingo-dl/clingo-dl/propagator.hh |  2 ++
 libclingo-dl/src/propagator.cc       | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index b1eff00..a913f31 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -127,6 +127,8 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
                     bool strict);
     //! Add (up to one) edge for a constraint.
     void add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
+    //! Watch the given edge literal in the given thread.
+    void add_watches_(Clingo::PropagateInit &init, literal_t lit, Clingo::id_t thread_id);
     //! Reset connected components (to be recalculated with the next call to cc_calculate_).
     void cc_reset_();
     //! Mark a vertex in a component as visited.
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index f3ee766..b580f83 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -165,6 +165,12 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     edge_t edge_start = edges_.size();
 
     Timer t{stats_.time_init};
+    // threads added since the last step have to watch existing edges, too
+    for (auto &edge : edges_) {
+        for (auto i = numeric_cast<int>(states_.size()); i < init.number_of_threads(); ++i) {
+            add_watches_(init, edge.lit, i);
+        }
+    }
     if (!add_constraints_(init)) {
         return;
     }
@@ -423,12 +429,17 @@ void DLPropagator<T>::add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vert
     edges_.push_back({u_id, v_id, weight, lit});
     lit_to_edges_.emplace(lit, id);
     for (int i = 0; i < init.number_of_threads(); ++i) {
-        init.add_watch(lit, i);
-        if (conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
-            conf_.get_propagate_budget(i) > 0) {
-            disable_edges_ = true;
-            init.add_watch(-lit, i);
-        }
+        add_watches_(init, lit, i);
+    }
+}
+
+template <typename T>
+void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init, literal_t lit, Clingo::id_t thread_id) {
+    init.add_watch(lit, thread_id);
+    if (conf_.get_propagate_mode(thread_id) >= PropagationMode::Zero || conf_.get_propagate_root(thread_id) > 0 ||
+        conf_.get_propagate_budget(thread_id) > 0) {
+        disable_edges_ = true;
+        init.add_watch(-lit, thread_id);
     }
 }
 
-- 
2.43.0


From 217253c02ae450d113b6175269bc05ea0710de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 17/25] fix: do not add mutexes exceeding the maximum size

---
 libclingo-dl/src/propagator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index b580f83..c276c08 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -605,6 +605,9 @@ void DLPropagator<T>::calculate_mutexes_(Clingo::PropagateInit &init, edge_t edg
                     n += 1;
                 }
                 if (st.to == start.from && w < 0) {
+                    if (n > conf_.mutex_size) {
+                        continue;
+                    }
                     ++stats_.mutexes;
                     clause.emplace_back(-st.lit);
                     auto c = queue_offset;
-- 
2.43.0


From 6c47a386f2e22c2a200469ad31771c84d81ceb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:23 +0000
Subject: [PATCH 18/25] fix: do not fail because of rounding errors in values
 of real variables

---
 libclingo-dl/src/propagator.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index c276c08..5c3c43b 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -42,6 +42,17 @@ inline auto to_symbol(T value) -> Clingo::Symbol {
     return Clingo::String(std::to_string(value).c_str());
 }
 
+template <typename T, typename std::enable_if<std::is_integral_v<T>, bool>::type = true>
+inline auto satisfies(T from, T to, T weight) -> bool {
+    return from - to <= weight;
+}
+
+// Note: values are subject to rounding errors.
+template <typename T, typename std::enable_if<std::is_floating_point_v<T>, bool>::type = true>
+inline auto satisfies(T from, T to, T weight) -> bool {
+    return from - to <= weight + epsilon<T>() / 2;
+}
+
 } // namespace
 
 void Statistics::reset() {
@@ -225,7 +236,7 @@ template <typename T> void DLPropagator<T>::check(Clingo::PropagateControl &ctl)
         for (auto &x : edges_) {
             if (ctl.assignment().is_true(x.lit)) {
                 if (!state.graph.has_value(x.from) || !state.graph.has_value(x.to) ||
-                    !(state.graph.get_value(x.from) - state.graph.get_value(x.to) <= x.weight)) {
+                    !satisfies<T>(state.graph.get_value(x.from), state.graph.get_value(x.to), x.weight)) {
                     throw std::logic_error("not a valid solution");
                 }
             }
-- 
2.43.0


From e865c18a38f6e3574eb3f5ae355033b1dd91ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 19/25] fix: use a representable epsilon for strict comparisons
 of real variables

---
 libclingo-dl/src/theory.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/theory.cc b/libclingo-dl/src/theory.cc
index 2532597..5eee82f 100644
--- a/libclingo-dl/src/theory.cc
+++ b/libclingo-dl/src/theory.cc
@@ -29,7 +29,10 @@ namespace ClingoDL {
 namespace {
 
 //! Epsilon value for floating point arithmetics.
-constexpr double DOUBLE_EPSILON = 0.00001;
+//!
+//! The value is a power of two to not introduce rounding errors when combining
+//! it with representable numbers.
+constexpr double DOUBLE_EPSILON = 1.0 / (1 << 17);
 
 //! Epsilon value for integral numbers.
 template <class T, typename std::enable_if<std::is_integral_v<T>, bool>::type = true>
-- 
2.43.0


From 7493f21f273bafdf93a7f940cd995f2ab42acaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:16 +0000
Subject: [PATCH 20/25] fix: reject arithmetic with non-finite results

---
 libclingo-dl/src/parsing.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index d3b14a3..592d459 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -220,6 +220,7 @@ template <class N, class F, typename std::enable_if<std::is_floating_point_v<N>,
     auto ea = evaluate<N>(a);
     auto eb = evaluate<N>(b);
     auto ret = f(to_number<N>(ea), to_number<N>(eb));
+    check_syntax(std::isfinite(ret), "could not evaluate term: number out of range");
     // Note: integral results over integers are kept as is to not change the identity of symbols.
     if (ea.type() == Clingo::SymbolType::Number && eb.type() == Clingo::SymbolType::Number &&
         ret >= std::numeric_limits<int>::lowest() && ret <= std::numeric_limits<int>::max() &&
@@ -460,6 +461,7 @@ auto parse(Clingo::TheoryAtom const &atom, std::function<int(Clingo::Symbol)> co
     }
 
     auto rhs = simplify(covec);
+    check_syntax(std::isfinite(static_cast<double>(rhs)), "could not evaluate term: number out of range");
     return {std::move(covec), rel, rhs, atom.literal(), strict};
 }
 
-- 
2.43.0


From ef992b131f5124bfe027f83da485a0287750d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 21/25] fix: do not truncate the level up to which propagation
 is enabled

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 5c3c43b..b4bf7d6 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -98,7 +98,7 @@ template <typename T> struct DLPropagator<T>::VertexInfo {
 //! Struct to store thread specific state.
 template <typename T> struct DLPropagator<T>::ThreadState {
     ThreadState(ThreadStatistics &stats, const std::vector<Edge> &edges, PropagationMode propagate,
-                level_t propagate_root, uint64_t propagate_budget)
+                uint64_t propagate_root, uint64_t propagate_budget)
         : stats{stats}, graph{stats, edges, propagate}, propagate_root{propagate_root},
           propagate_budget{propagate_budget} {}
 
-- 
2.43.0


From b3cf3b475baf29aac35c56889a2b9d4906414bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 22/25] fix: avoid overflow for large propagation budgets

---
 libclingo-dl/src/propagator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index b4bf7d6..b909e03 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -761,9 +761,10 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
     for (auto edge_idx : state.todo_edges) {
         if (state.graph.edge_is_enabled(edge_idx)) {
             // disable propagation once budget exceeded
-            bool has_budget =
-                state.propagate_budget > 0 && state.stats.propagate_cost_add + state.propagate_budget >
-                                                  state.stats.propagate_cost_from + state.stats.propagate_cost_to;
+            // Note: the comparison is arranged such that large budgets do not overflow
+            uint64_t cost = state.stats.propagate_cost_from + state.stats.propagate_cost_to;
+            bool has_budget = state.propagate_budget > 0 && (cost <= state.stats.propagate_cost_add ||
+                                                             cost - state.stats.propagate_cost_add < state.propagate_budget);
             if (!propagate && !has_budget) {
                 state.graph.disable_propagate();
             }
-- 
2.43.0


From 6900be744d813e7fa0a791972eee16d691db43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 23/25] fix: use a wider type for sums of weights over paths

---
 libclingo-dl/clingo-dl/graph.hh      | 11 ++++++--
 libclingo-dl/clingo-dl/propagator.hh |  9 ++++---
 libclingo-dl/src/graph.cc            | 16 +++++------
 libclingo-dl/src/propagator.cc       | 40 +++++++++++++++++++---------
 4 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/libclingo-dl/clingo-dl/graph.hh b/libclingo-dl/clingo-dl/graph.hh
index 31d2638..f62282d 100644
--- a/libclingo-dl/clingo-dl/graph.hh
+++ b/libclingo-dl/clingo-dl/graph.hh
@@ -29,9 +29,16 @@
 #include <clingo-dl/theory.hh>
 #include <clingo-dl/util.hh>
 #include <clingo.hh>
+#include <type_traits>
 
 namespace ClingoDL {
 
+//! Type to sum up values.
+//!
+//! Note: A wider type is used for integers because (intermediate) sums over
+//! paths do not have to fit into the type of the weights.
+template <typename T> using sum_type_t = std::conditional_t<std::is_integral_v<T>, int64_t, T>;
+
 //! Struct to represent an edge in the difference logic graph.
 template <typename T> struct Edge {
     using value_t = T;     //!< The value type (integral or floating point).
@@ -76,8 +83,8 @@ template <typename T> class Graph {
     template <typename D> struct Impl;
     using HeapType = Heap<4>;                 //!< The heap type used in (dijkstra-like) algorithms.
     using index_t = HeapType::index_type;     //!< Type for indexing (32bit unsigned).
-    using value_t = T;                        //!< The value type (integral or floating point).
-    using Edge = ClingoDL::Edge<value_t>;     //!< The data structure for edges.
+    using value_t = sum_type_t<T>;            //!< The value type for paths (integral or floating point).
+    using Edge = ClingoDL::Edge<T>;           //!< The data structure for edges.
     using EdgeVec = std::vector<Edge>;        //!< A vector of edges.
     using VertexVec = std::vector<Vertex>;    //!< A vector of vertices.
     using TrailVec = std::vector<TrailEntry>; //!< The trail to backtrack per decision level changes.
diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index a913f31..2f86bc6 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -101,6 +101,7 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
     struct FactState;
     using Edge = ClingoDL::Edge<value_t>;
     using Graph = ClingoDL::Graph<value_t>;
+    using sum_t = sum_type_t<value_t>;
     //! Vector of coefficients and variables.
     using CoVarVec = ClingoDL::CoVarVec<value_t>;
     //! Mapping from literals to edge indices.
@@ -145,12 +146,14 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
     // propagation functions
     //! Disable all edges associated with the given literal in the thread state.
     void disable_edge_by_lit(ThreadState &state, literal_t lit);
+    //! Compute the current value of a variable in the given graph.
+    [[nodiscard]] auto lower_bound_(Graph const &graph, vertex_t index) const -> sum_t;
     //! Compute the current potential of a vertex in the given graph.
-    [[nodiscard]] auto get_potential_(Graph const &graph, vertex_t index) const -> value_t;
+    [[nodiscard]] auto get_potential_(Graph const &graph, vertex_t index) const -> sum_t;
     //! Compute the current cost of a vertex in the given graph.
-    [[nodiscard]] auto cost_(Graph const &graph, Edge const &edge) const -> value_t;
+    [[nodiscard]] auto cost_(Graph const &graph, Edge const &edge) const -> sum_t;
     //! Compute a weight to sort vertices before propagation.
-    [[nodiscard]] auto cost_(SortMode mode, Graph const &graph, edge_t index) const -> value_t;
+    [[nodiscard]] auto cost_(SortMode mode, Graph const &graph, edge_t index) const -> sum_t;
     //! Sort vertices in the propagation queue according to the given mode.
     void sort_edges(SortMode mode, ThreadState &state);
     //! Propagate the given literals.
diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index b4b32e9..1a6fa0c 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -59,7 +59,7 @@ void ThreadStatistics::accu(ThreadStatistics const &x) {
 
 //!< Thread specific information for vertices.
 template <typename T> struct Graph<T>::Vertex {
-    using value_t = T;
+    using value_t = sum_type_t<T>;
     using PotentialStack = std::vector<std::pair<vertex_t, value_t>>;
 
     //! Return true if the vertex has a value assigned.
@@ -308,7 +308,7 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
     //! Compute shortests paths using the Bellman Ford algorithm.
     std::optional<std::unordered_map<vertex_t, value_t>> bellman_ford_(std::vector<edge_t> const &edges,
                                                                        vertex_t source) {
-        std::unordered_map<vertex_t, T> costs;
+        std::unordered_map<vertex_t, value_t> costs;
         costs[source] = 0;
         vertex_t vertices = 0;
         for (auto &vertex : vertices_) {
@@ -597,7 +597,7 @@ template <typename T> auto Graph<T>::has_value(vertex_t idx) const -> bool {
     return idx < vertices_.size() && vertices_[idx].defined();
 }
 
-template <typename T> auto Graph<T>::get_value(vertex_t idx) const -> T {
+template <typename T> auto Graph<T>::get_value(vertex_t idx) const -> value_t {
     assert(has_value(idx));
     return -vertices_[idx].potential();
 }
@@ -793,7 +793,7 @@ template <typename T> bool Graph<T>::check_cycle_(Clingo::PropagateControl &ctl,
     clause_.emplace_back(-edges_[v.path_from].lit);
     auto next_idx = edges_[v.path_from].from;
 #ifdef CLINGODL_CROSSCHECK
-    T weight = edges_[v.path_from].weight;
+    value_t weight = edges_[v.path_from].weight;
 #endif
     while (uv.to != next_idx) {
         auto &vertex = vertices_[next_idx];
@@ -816,7 +816,7 @@ template <typename T> bool Graph<T>::propagate_simple_(Clingo::PropagateControl
         if (visited_from_.empty() || propagate_ == PropagationMode::Trivial) {
             return with_incoming_(ctl, uv.from, [&](vertex_t t_idx, edge_t ts_idx) {
                 auto &ts = edges_[ts_idx];
-                if (t_idx == uv.to && uv.weight + ts.weight < 0 && !ctl.assignment().is_false(ts.lit)) {
+                if (t_idx == uv.to && value_t{uv.weight} + ts.weight < 0 && !ctl.assignment().is_false(ts.lit)) {
                     clause_.emplace_back(-edges_[uv_idx].lit);
                     clause_.emplace_back(-edges_[ts_idx].lit);
                     ++stats_.false_edges_trivial;
@@ -947,9 +947,9 @@ template <typename T>
         auto &t = vertices_[t_idx];
         auto &ts = edges_[ts_idx];
         if (s.visited_from < t.visited_from) {
-            T weight = t.potential() - s.potential();
+            value_t weight = t.potential() - s.potential();
             if (weight + ts.weight < 0 && !ctl.assignment().is_false(ts.lit)) {
-                T check = 0;
+                value_t check = 0;
                 auto r_idx = t_idx;
                 while (u_idx != r_idx && s_idx != r_idx) {
                     auto &r = vertices_[r_idx];
@@ -1217,7 +1217,7 @@ bool Graph<T>::propagate_edge_false_(Clingo::PropagateControl &ctl, edge_t uv_id
     return false;
 }
 
-template <typename T> void Graph<T>::set_potential_(Vertex &vtx, level_t level, T potential) {
+template <typename T> void Graph<T>::set_potential_(Vertex &vtx, level_t level, value_t potential) {
     if (!vtx.defined() || vtx.potential_stack.back().first < level) {
         vtx.potential_stack.emplace_back(level, potential);
         changed_vertices_.emplace_back(numeric_cast<vertex_t>(&vtx - vertices_.data()));
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index b909e03..7ec0068 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -146,10 +146,13 @@ template <typename T> auto DLPropagator<T>::has_lower_bound(Clingo::id_t thread_
 
 template <typename T> auto DLPropagator<T>::lower_bound(Clingo::id_t thread_id, vertex_t index) const -> value_t {
     assert(has_lower_bound(thread_id, index));
-    auto &state = states_[thread_id];
+    return static_cast<T>(lower_bound_(states_[thread_id].graph, index));
+}
+
+template <typename T> auto DLPropagator<T>::lower_bound_(Graph const &graph, vertex_t index) const -> sum_t {
     auto zero_vertex = zero_vertices_[vertex_info_[index].cc];
-    T adjust = state.graph.has_value(zero_vertex) ? state.graph.get_value(zero_vertex) : 0;
-    return state.graph.get_value(index) - adjust;
+    sum_t adjust = graph.has_value(zero_vertex) ? graph.get_value(zero_vertex) : 0;
+    return graph.get_value(index) - adjust;
 }
 
 template <typename T> void DLPropagator<T>::extend_model(Clingo::Model &model) {
@@ -158,10 +161,8 @@ template <typename T> void DLPropagator<T>::extend_model(Clingo::Model &model) {
     for (vertex_t idx = 0; idx < numeric_cast<vertex_t>(vertex_info_.size()); ++idx) {
         if (!is_zero_(idx) && state.graph.has_value(idx)) {
             Clingo::SymbolVector params;
-            auto zero_vertex = zero_vertices_[vertex_info_[idx].cc];
-            T adjust = state.graph.has_value(zero_vertex) ? state.graph.get_value(zero_vertex) : 0;
             params.emplace_back(vertex_info_[idx].symbol);
-            params.emplace_back(to_symbol<T>(state.graph.get_value(idx) - adjust));
+            params.emplace_back(to_symbol<T>(static_cast<T>(lower_bound_(state.graph, idx))));
             vec.emplace_back(Function("dl", params));
         }
     }
@@ -231,12 +232,25 @@ template <typename T> void DLPropagator<T>::check(Clingo::PropagateControl &ctl)
         do_propagate(ctl, {facts.lits.data(), facts.lits.data() + facts.limit}); // NOLINT
         facts.limit = 0;
     }
+    if constexpr (std::is_integral_v<T>) {
+        // sums over paths can leave the range of the values to report
+        if (assignment.is_total()) {
+            for (vertex_t idx = 0; idx < numeric_cast<vertex_t>(vertex_info_.size()); ++idx) {
+                if (!is_zero_(idx) && state.graph.has_value(idx)) {
+                    auto value = lower_bound_(state.graph, idx);
+                    if (value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max()) {
+                        throw std::overflow_error("value of variable out of range");
+                    }
+                }
+            }
+        }
+    }
 #if defined(CLINGODL_CHECKSOLUTION) || defined(CLINGODL_CROSSCHECK)
     if (ctl.assignment().is_total()) {
         for (auto &x : edges_) {
             if (ctl.assignment().is_true(x.lit)) {
                 if (!state.graph.has_value(x.from) || !state.graph.has_value(x.to) ||
-                    !satisfies<T>(state.graph.get_value(x.from), state.graph.get_value(x.to), x.weight)) {
+                    !satisfies<sum_t>(state.graph.get_value(x.from), state.graph.get_value(x.to), x.weight)) {
                     throw std::logic_error("not a valid solution");
                 }
             }
@@ -429,7 +443,7 @@ void DLPropagator<T>::add_edges_(Clingo::PropagateInit &init, vertex_t u_id, ver
                                  literal_t lit, bool strict) {
     add_edge_(init, u_id, v_id, weight, lit);
     if (strict) {
-        add_edge_(init, v_id, u_id, -weight - 1, -lit);
+        add_edge_(init, v_id, u_id, -1 - weight, -lit);
     }
 }
 
@@ -560,7 +574,7 @@ void DLPropagator<T>::calculate_mutexes_(Clingo::PropagateInit &init, edge_t edg
     // if the above graph gives rise to a negative cycle, then r and s are mutually exclusive
     // the algorithm below adds clauses excluding such mutexes
     struct State {
-        value_t weight;
+        sum_t weight;
         edge_t id;
         index_t n;
         index_t previous;
@@ -663,21 +677,21 @@ template <typename T> void DLPropagator<T>::disable_edge_by_lit(ThreadState &sta
     }
 }
 
-template <typename T> auto DLPropagator<T>::get_potential_(Graph const &graph, vertex_t index) const -> value_t {
+template <typename T> auto DLPropagator<T>::get_potential_(Graph const &graph, vertex_t index) const -> sum_t {
     return graph.has_value(index) ? -graph.get_value(index) : 0;
 }
 
-template <typename T> auto DLPropagator<T>::cost_(Graph const &graph, Edge const &edge) const -> value_t {
+template <typename T> auto DLPropagator<T>::cost_(Graph const &graph, Edge const &edge) const -> sum_t {
     return get_potential_(graph, edge.from) + edge.weight - get_potential_(graph, edge.to);
 }
 
-template <typename T> auto DLPropagator<T>::cost_(SortMode mode, Graph const &graph, edge_t index) const -> value_t {
+template <typename T> auto DLPropagator<T>::cost_(SortMode mode, Graph const &graph, edge_t index) const -> sum_t {
     switch (mode) {
         case SortMode::Weight: {
             return edges_[index].weight;
         }
         case SortMode::WeightRev: {
-            return -edges_[index].weight;
+            return -static_cast<sum_t>(edges_[index].weight);
         }
         case SortMode::Potential: {
             return cost_(graph, edges_[index]);
-- 
2.43.0


From f9879a9be293b836bd8f49b53dfaf255dfea6a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 24/25] fix: terminate minimization at the smallest integer

---
 app/lib/src/app.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 50fc5bc..8acfd2b 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -76,6 +76,10 @@ void Optimizer::solve(Clingo::Control &ctl) {
         if (ret.is_interrupted()) {
             break;
         }
+        // there are no smaller values
+        if (ret.is_satisfiable() && *optimization == std::numeric_limits<int_value_t>::min()) {
+            break;
+        }
         if (ret.is_unsatisfiable()) {
             if (search_bound_) {
                 lower_bound_ = *search_bound_ + 1;
@@ -110,17 +114,19 @@ void Optimizer::add_stats(Clingo::UserStatistics root) const {
 auto Optimizer::on_model(Clingo::Model &model) -> bool {
     // update (upper) bound
     optimization = get_bound(model);
-    upper_bound_ = *optimization - 1;
+    upper_bound_ = *optimization;
+    if (*optimization > std::numeric_limits<int_value_t>::min()) {
+        --*upper_bound_;
+    }
 
     // determine search bound
     double aux = *optimization - adjust_;
     if (lower_bound_ && aux <= *lower_bound_) {
         aux = *lower_bound_ + 1.0;
     }
-    // leave room to sum up values because bounds close to the smallest integer
-    // overflow when adding the corresponding constraint
-    if (aux < std::numeric_limits<int_value_t>::min() / 2) {
-        aux = std::numeric_limits<int_value_t>::min() / 2;
+    // the smallest integer cannot be used as bound of a constraint
+    if (aux < -std::numeric_limits<int_value_t>::max()) {
+        aux = -std::numeric_limits<int_value_t>::max();
     }
     // the search bound must not be weaker than the upper bound because the
     // lower bound is derived from it
-- 
2.43.0


From 38e8f491afe3362007fd11c69db57fd08cf5be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 25/25] fix: report zero instead of negative zero for real
 valued variables

---
 libclingo-dl/src/graph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 1a6fa0c..8d30fe4 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -599,7 +599,8 @@ template <typename T> auto Graph<T>::has_value(vertex_t idx) const -> bool {
 
 template <typename T> auto Graph<T>::get_value(vertex_t idx) const -> value_t {
     assert(has_value(idx));
-    return -vertices_[idx].potential();
+    // Note: the subtraction avoids negative zeros
+    return value_t{0} - vertices_[idx].potential();
 }
 
 template <typename T> auto Graph<T>::edge_is_enabled(edge_t edge_idx) const -> bool {
-- 
2.43.0

