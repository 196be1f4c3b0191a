From 3873702be75d91eda81dea4a8d24ae6295b1e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:58 +0000
Subject: [PATCH 01/41] fix: keep the early-termination callback alive for the
 whole search

The saturation classes stored a reference to the std::function they were given.
Solver::post_star_accepts passes a lambda, so the reference was bound to a
temporary that is destroyed before run() calls it.
---
 src/include/pdaaal/internal/PdaSaturation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3c1c1a9..421f45f 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -113,7 +113,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 42)
 
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination; // Stored by value: callers pass lambdas, i.e. temporaries that die before the search runs.
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_automaton_states;
@@ -355,7 +355,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 48)
 
         p_automaton_t& _automaton;
-        const early_termination_fn<W>& _early_termination;
+        const early_termination_fn<W> _early_termination; // Stored by value: callers pass lambdas, i.e. temporaries that die before the search runs.
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
@@ -525,7 +525,7 @@ namespace pdaaal::internal {
 
     private:
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination; // Stored by value: callers pass lambdas, i.e. temporaries that die before the search runs.
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
-- 
2.43.0


From 6e1741ac69e9ecbd0897fb8b85f7f5e6d9f04cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:25 +0000
Subject: [PATCH 02/41] fix: initialize the product for shortest traces with
 the requested trace type

---
 src/include/pdaaal/Solver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 8ab4ed5..84bb3fe 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -83,7 +83,7 @@ namespace pdaaal {
 
         template <Trace_Type trace_type,typename pda_t, typename automaton_t, typename W>
         static bool dual_search_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            if (instance.template initialize_product<true>()) {
+            if (instance.template initialize_product<true,true,trace_type>()) {
                 return true;
             }
             // we could *probably* avoid some dupplication here if the pre/post* algorithms
@@ -181,7 +181,7 @@ namespace pdaaal {
         template <Trace_Type trace_type, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            return instance.initialize_product() ||
+            return instance.template initialize_product<false,true,trace_type>() ||
                    pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest)
                             return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
-- 
2.43.0


From 9990dacceced5453adad5350a7b3f258e0ea8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:25 +0000
Subject: [PATCH 03/41] fix: shortest-trace post* must not miss paths heavier
 than the search frontier

---
 src/include/pdaaal/Solver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 84bb3fe..2f31b12 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -221,7 +221,9 @@ namespace pdaaal {
                     [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                     });
-                return saturation.run();
+                // The weight of the shortest accepting path can exceed the weight of every edge on the search frontier,
+                // so when the search is exhausted, the (now complete) product automaton has the answer.
+                return saturation.run() || instance.product_automaton().has_accepting_state();
             } else if constexpr (trace_type == Trace_Type::Any ||
                                  trace_type == Trace_Type::None) { // TODO: Implement faster no-trace option.
                 internal::PostStarSaturation<W,true> saturation(instance.automaton(),
-- 
2.43.0


From 63a9cdd8a4d9be90eef8617555133de5ff0b13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:25 +0000
Subject: [PATCH 04/41] fix: shortest-trace pre* keeps the trace that belongs
 to the improved weight

---
 src/include/pdaaal/internal/PdaSaturation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 421f45f..10f324a 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -194,6 +194,7 @@ namespace pdaaal::internal {
                     _workset.emplace(from, label, to, std::move(res), trace);
                 } else {
                     if(solver_weight::less(weight, it->second.second)) {
+                        it->second.first = trace; // The trace must always belong to the weight that is stored on the edge.
                         it->second.second = std::move(weight);
                         _workset.emplace(from, label, to, std::move(res), trace);
                     }
-- 
2.43.0


From 1f58020a4dc91c05169b51255865a1ef1323b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:13 +0000
Subject: [PATCH 05/41] fix: accepts() must follow epsilon edges for the empty
 stack

---
 src/include/pdaaal/internal/PAutomaton.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 1e765f1..1514553 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -509,7 +509,12 @@ namespace pdaaal::internal {
             //Equivalent to (but hopefully faster than): return !_accept_path(state, stack).empty();
 
             if (stack.empty()) {
-                return _states[state]->_accepting;
+                if (_states[state]->_accepting) return true;
+                // In a post* automaton, the empty stack may be accepted by an epsilon edge to an accepting state.
+                for (const auto& [to,labels] : _states[state]->_edges) {
+                    if (_states[to]->_accepting && labels.contains(epsilon)) return true;
+                }
+                return false;
             }
             // DFS search.
             std::stack<std::pair<size_t, size_t>> search_stack;
-- 
2.43.0


From 9286dcbb8345eed94676ffc877d0cb42f5531a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:23 +0000
Subject: [PATCH 06/41] fix: dual search rule trace when no path exists

---
 src/include/pdaaal/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 2f31b12..99c5790 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -446,7 +446,7 @@ namespace pdaaal {
                                     const std::optional<AutomatonPath<true>>& paths) {
             using rule_t = user_rule_t<W>;
 
-            if (!paths.has_value()) {
+            if (!paths.has_value() || paths->is_null()) {
                 return std::make_tuple(std::numeric_limits<size_t>::max(), std::vector<rule_t>(), std::vector<uint32_t>(), std::vector<uint32_t>(), std::vector<size_t>(), std::vector<size_t>());
             }
             // The paths was retrieved from the product automaton. First number is the state in initial_automaton, second number is state in final_automaton.
-- 
2.43.0


From 97420f9f5c90fd30f62db62e8c071e4f0d9fb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:23 +0000
Subject: [PATCH 07/41] fix: rule trace and paths of an empty trace

---
 src/include/pdaaal/Solver.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 99c5790..e808a42 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -319,15 +319,16 @@ namespace pdaaal {
         template <Trace_Type trace_type = Trace_Type::Any, bool use_dual=false, typename pda_t, typename automaton_t, typename W>
         static auto get_rule_trace_and_paths(const PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
+            [[maybe_unused]] const bool used_post = &instance.automaton() == &instance.initial_automaton(); // The trace can be empty, so it does not tell.
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths), weight);
+                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, used_post), weight);
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
             } else {
                 auto paths = instance.template find_path<trace_type, true>();
-                return _get_rule_trace_and_paths(instance.automaton(), paths);
+                return _get_rule_trace_and_paths(instance.automaton(), paths, used_post);
             }
         }
 
@@ -401,7 +402,8 @@ namespace pdaaal {
                 std::vector<size_t>, // Path in initial PAutomaton (accepting initial stack)
                 std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
                 > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type>& automaton, // The PAutomaton that has been build up (either A_pre* or A_post*)
-                                            const AutomatonPath<true>& paths) {
+                                            const AutomatonPath<true>& paths,
+                                            bool used_post) { // Whether @automaton is A_post*
             using rule_t = user_rule_t<W>;
 
             if (paths.is_null()) {
@@ -421,9 +423,10 @@ namespace pdaaal {
             // Get accepting path of initial stack (and the initial stack itself - for post*)
             auto [start_path, start_stack] = tb.path().get_path_and_stack();
 
-            if (tb.post()) { // post* was used
+            if (used_post) {
                 std::reverse(trace.begin(), trace.end());
-                return std::make_tuple(trace[0].from(), std::move(trace),
+                size_t initial_state = trace.empty() ? paths.front_state().first : trace[0]._from;
+                return std::make_tuple(initial_state, std::move(trace),
                                        std::move(start_stack), std::move(goal_stack),
                                        std::move(start_path), std::move(goal_path));
             } else { // pre* was used
@@ -456,7 +459,8 @@ namespace pdaaal {
             auto [trace2, final_stack, final_path] = _get_trace_stack_path(final_automaton, std::move(final_automaton_path));
             // Concat traces
             trace.insert(trace.end(), trace2.begin(), trace2.end());
-            return std::make_tuple(trace[0].from(), std::move(trace),
+            size_t initial_state = trace.empty() ? paths->front_state().first : trace[0]._from;
+            return std::make_tuple(initial_state, std::move(trace),
                                    std::move(initial_stack), std::move(final_stack),
                                    std::move(initial_path), std::move(final_path));
         }
-- 
2.43.0


From 79d650d405234bd230f06aab408591f6ca5f8389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:23 +0000
Subject: [PATCH 08/41] fix: pre_star_accepts_no_ET did not compile

---
 src/include/pdaaal/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index e808a42..f7a1059 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -250,7 +250,7 @@ namespace pdaaal {
         template <typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            pre_star<W,false>(instance.automaton());
+            pre_star<Trace_Type::Any,W>(instance.automaton());
             return instance.template initialize_product<false,false>();
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
-- 
2.43.0


From 8d87f5ce686780f242ed0d740e6b55b02af9baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:35 +0000
Subject: [PATCH 09/41] fix: initial states have weight zero in shortest-trace
 products

---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 1514553..6b4cfdf 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -175,7 +175,7 @@ namespace pdaaal::internal {
             // TODO: Move this out to sub-class IncrementalPAutomaton
             size_t _back_edge_state = std::numeric_limits<size_t>::max(); // Use the back_edge_state to check for existence of a back_edge.
             uint32_t _back_edge_label = std::numeric_limits<uint32_t>::max()-1; // The null value should not equal epsilon (defensive defaults)
-            weight_or_bool_t _best_weight;
+            weight_or_bool_t _best_weight{}; // Zero for initial states, which are reached by the empty path.
 
             state_t(bool accepting, size_t id) : _accepting(accepting), _id(id) {};
 
-- 
2.43.0


From ad2503ce5a9182e48aee2c77e1d4721b6293b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:29 +0000
Subject: [PATCH 10/41] fix: shortest-trace pre* with a target that accepts the
 empty stack

---
 src/include/pdaaal/internal/PdaSaturation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 10f324a..64f7283 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -176,7 +176,12 @@ namespace pdaaal::internal {
                         } else throw std::logic_error("Shortest traces for void-weights is not supported.");
                     }
                 }
-                if(from->_accepting) add_pop(from->_id);
+            }
+            // We need to add_pop after going through the original automaton.
+            for (const auto& from : _automaton.states()) {
+                if (!from->_accepting) continue;
+                if constexpr (W::is_weight && SHORTEST) _minpath[from->_id] = solver_weight::zero();
+                add_pop(from->_id);
             }
         }
 
-- 
2.43.0


From 3a43c2af90562fdf903a0848adc3c31ed5fa563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:29 +0000
Subject: [PATCH 11/41] fix: out-of-bounds read in shortest-trace pre*

---
 src/include/pdaaal/internal/PdaSaturation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 64f7283..91f3bf5 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -245,7 +245,7 @@ namespace pdaaal::internal {
 
             if constexpr (SHORTEST && W::is_weight) {
                 assert(t._weight != solver_weight::max());
-                if(!_popped[t._from])
+                if(t._from < _n_pda_states && !_popped[t._from])
                     _minpath[t._from] = t._weight;
                 if(solver_weight::less(solver_weight::add(w, _minpath[t._to]), t._weight))
                     return;
-- 
2.43.0


From 49de6e15c033e4a638428194bc835737536f31cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:35 +0000
Subject: [PATCH 12/41] fix: shortest-trace pre* without early termination lost
 edge weights

---
 src/include/pdaaal/internal/PdaSaturation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 91f3bf5..c9a8478 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -228,7 +228,7 @@ namespace pdaaal::internal {
 
         weight_t get_pautomata_edge_weight(auto from, auto label, auto to)
         {
-            if constexpr (ET && W::is_weight)
+            if constexpr (SHORTEST && W::is_weight)
                 return  _automaton.get_edge(from, label, to)->second;
             return weight_t{};
         }
-- 
2.43.0


From 2505f82c8245d4ac54cc7ad3a6dea3adfafd1102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:01 +0000
Subject: [PATCH 13/41] fix: shortest accepting path must start in the queried
 control state

---
 src/include/pdaaal/internal/PAutomaton.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 6b4cfdf..7f88610 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -555,8 +555,9 @@ namespace pdaaal::internal {
                     size_t _state;
                     size_t _stack_index;
                     const queue_elem* _back_pointer;
-                    queue_elem(typename W::type weight, size_t state, size_t stack_index, const queue_elem* back_pointer = nullptr)
-                    : _weight(weight), _state(state), _stack_index(stack_index), _back_pointer(back_pointer) {};
+                    bool _via_epsilon;
+                    queue_elem(typename W::type weight, size_t state, size_t stack_index, const queue_elem* back_pointer = nullptr, bool via_epsilon = false)
+                    : _weight(weight), _state(state), _stack_index(stack_index), _back_pointer(back_pointer), _via_epsilon(via_epsilon) {};
 
                     bool operator<(const queue_elem& other) const {
                         return std::tie(_state, _stack_index) < std::tie(other._state, other._stack_index);
@@ -570,7 +571,9 @@ namespace pdaaal::internal {
                 };
                 struct queue_elem_comp {
                     bool operator()(const queue_elem& lhs, const queue_elem& rhs){
-                        return solver_weight<W,trace_type>::less(rhs._weight, lhs._weight); // Used in a max-heap, so swap arguments to make it a min-heap.
+                        if (solver_weight<W,trace_type>::less(rhs._weight, lhs._weight)) return true; // Used in a max-heap, so swap arguments to make it a min-heap.
+                        // A path using an epsilon edge leaves out its 'from-state', so prefer an equally good path without it.
+                        return lhs._via_epsilon && !rhs._via_epsilon && !solver_weight<W,trace_type>::less(lhs._weight, rhs._weight);
                     }
                 };
                 queue_elem_comp less;
@@ -606,12 +609,12 @@ namespace pdaaal::internal {
                         auto label = labels.get(stack[current._stack_index]);
                         if (label != nullptr) {
                             if (current._stack_index + 1 < stack.size() || _states[to]->_accepting) {
-                                search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, label->second), to, current._stack_index + 1, pointer);
+                                search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, label->second), to, current._stack_index + 1, pointer, current._via_epsilon);
                             }
                         }
                         auto eps_label = labels.get(epsilon);
                         if (eps_label != nullptr) {
-                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer->_back_pointer);
+                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer->_back_pointer, true);
                         }
                     }
                 }
-- 
2.43.0


From 964985f0343aa8ad47124dde09048c923c923a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:02 +0000
Subject: [PATCH 14/41] fix: comparing vector weights of different length read
 out of bounds

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 668dfd6..d3428d5 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -178,7 +178,7 @@ namespace pdaaal {
                     auto l1 = lhs.end(), l2 = rhs.end();
                     bool exhaust1 = (f1 == l1);
                     bool exhaust2 = (f2 == l2);
-                    for (; !exhaust1 || !exhaust2; exhaust1 = (++f1 == l1), exhaust2 = (++f2 == l2)) {
+                    for (; !exhaust1 || !exhaust2; exhaust1 = exhaust1 || (++f1 == l1), exhaust2 = exhaust2 || (++f2 == l2)) {
                         auto v1 = exhaust1 ? weight<Inner>::zero() : *f1; // Missing elements are implicitly zero.
                         auto v2 = exhaust2 ? weight<Inner>::zero() : *f2;
                         if (weight_impl<Inner, maximize>::less(v1, v2)) return true;
-- 
2.43.0


From 95d97c6d91d8dfbe2aaf23cde461ff9e7af880c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:25 +0000
Subject: [PATCH 15/41] fix: linear weight functions accumulated in int

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index d3428d5..60d6b2c 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -222,7 +222,7 @@ namespace pdaaal {
             if (_function) {
                 return _function.value()(args...);
             }
-            return std::accumulate(_functions.begin(), _functions.end(), 0,
+            return std::accumulate(_functions.begin(), _functions.end(), static_cast<W>(0),
                     [&args...](const W& lhs, const std::pair<W, linear_weight_function<W, Args...>>& rhs) -> W {
                 return lhs + (rhs.first * rhs.second(args...));
             });
-- 
2.43.0


From e96eccd1b90809d8dbed07cf516212de053a0bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:25 +0000
Subject: [PATCH 16/41] fix: insert_or_assign on tuple sets did not compile

---
 src/include/pdaaal/utils/fut_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/fut_set.h b/src/include/pdaaal/utils/fut_set.h
index 37e2782..5000991 100644
--- a/src/include/pdaaal/utils/fut_set.h
+++ b/src/include/pdaaal/utils/fut_set.h
@@ -150,7 +150,7 @@ namespace pdaaal::fut {
 
             template <typename... Args>
             auto insert_or_assign(Args &&... args) { // In set_containers insert_or_assign is just emplace. Provide it here, to have consistent interface.
-                return emplace(std::forward<Args>(args)...);
+                return this->emplace(std::forward<Args>(args)...);
             }
         };
 
-- 
2.43.0


From b7306e7a3f68b560b82b35d2dcff0491066e14d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:20 +0000
Subject: [PATCH 17/41] fix: optional and starred NFAs accepted too much when
 the initial state lies on a loop

---
 src/include/pdaaal/NFA.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 3544662..7e4a1e6 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -330,12 +330,14 @@ namespace pdaaal {
         }
         
         void question_extend() {
+            // The old initial states may be reached again (e.g. by a loop), so only a fresh state can accept the empty word.
+            _states.emplace_back(std::make_unique<state_t>(true));
+            auto initial = _states.back().get();
             for(auto s : _initial) {
-                if(!s->_accepting) {
-                    s->_accepting = true;
-                    _accepting.push_back(s);
-                }
+                initial->add_epsilon_edge(s);
             }
+            _initial = {initial};
+            _accepting.push_back(initial);
         }
         
         void plus_extend() {
-- 
2.43.0


From 7c87bdf17a85f784935c305f9dd76b26b41764a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:30 +0000
Subject: [PATCH 18/41] fix: assigning an NFA kept the states it had before

---
 src/include/pdaaal/NFA.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 7e4a1e6..de9eadf 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -291,6 +291,10 @@ namespace pdaaal {
 
         
         NFA& operator=(const NFA& other) {
+            if (this == &other) return *this;
+            _states.clear();
+            _initial.clear();
+            _accepting.clear();
             std::unordered_map<state_t*, state_t*> indir;
             for(auto& s : other._states) {
                 _states.emplace_back(std::make_unique<state_t>(*s));
-- 
2.43.0


From 112a978f5a21efedfb8c7b3f98657c8e6b95c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 19/41] fix: intersect_edge_labels mixed the labels of
 different edges

---
 src/include/pdaaal/NFA.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index de9eadf..b2b74aa 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -270,6 +270,7 @@ namespace pdaaal {
                     result.reserve(labels.size());
                     temp_union.reserve(labels.size());
                     temp.reserve(labels.size());
+                    temp.clear();
                     if (e._negated) {
                         std::set_difference(labels.begin(), labels.end(), e._symbols.begin(), e._symbols.end(), std::back_inserter(temp));
                     } else {
-- 
2.43.0


From ac99f26d66f0af8a2d8bc357509565b556cfabbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:28 +0000
Subject: [PATCH 20/41] fix: P-automata of negated NFA edges need sorted label
 ids

---
 src/include/pdaaal/PAutomaton.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index f87dc8a..ffb478d 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -52,7 +52,11 @@ namespace pdaaal {
         // Construct a PAutomaton that accepts a configuration <p,w> iff states contains p and nfa accepts w.
         PAutomaton(const pda_t& pda, const NFA<label_t>& nfa, const std::vector<size_t>& states)
         : parent_t(static_cast<const internal_pda_t&>(pda), states, nfa.empty_accept()), _pda(pda) {
-            this->template construct<label_t>(nfa, states, [&pda](const auto& e){ return pda.encode_pre(e._symbols); });
+            this->template construct<label_t>(nfa, states, [&pda](const auto& e){
+                auto labels = pda.encode_pre(e._symbols);
+                std::sort(labels.begin(), labels.end()); // Label ids need not be ordered as the labels are.
+                return labels;
+            });
         }
         // Same, but where the NFA contains the symbols mapped to ids already.
         PAutomaton(const pda_t& pda, const NFA<uint32_t>& nfa, const std::vector<size_t>& states)
-- 
2.43.0


From c2fc226bed7191729fce0660d6be9119239c997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 21/41] fix: pre-labels of a rule given as a list are stored as
 a sorted set

---
 src/include/pdaaal/PDA.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/PDA.h b/src/include/pdaaal/PDA.h
index bcf8ed5..aac09d5 100644
--- a/src/include/pdaaal/PDA.h
+++ b/src/include/pdaaal/PDA.h
@@ -251,14 +251,22 @@ namespace pdaaal {
 
     private:
 
+        // The pre-labels of a rule are kept as a sorted set of label ids.
+        std::vector<uint32_t> encode_pre_set(const std::vector<label_t>& pre_labels) const {
+            auto ids = encode_pre(pre_labels);
+            std::sort(ids.begin(), ids.end());
+            ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
+            return ids;
+        }
+
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels) {
-            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels, typename WT::type weight = WT::zero()) {
-            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
-- 
2.43.0


From 4f94ecf7c5559a3870d1657b4dbd0b86e68e11c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:10 +0000
Subject: [PATCH 22/41] fix: reducing a PDA cleared a terminal state other than
 state 0

---
 src/include/pdaaal/internal/Reducer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/Reducer.h b/src/include/pdaaal/internal/Reducer.h
index 662fcfb..5b33564 100644
--- a/src/include/pdaaal/internal/Reducer.h
+++ b/src/include/pdaaal/internal/Reducer.h
@@ -137,7 +137,7 @@ namespace pdaaal::internal {
             }
             // DO PRUNING!
             for (size_t i = 1; i < pda.states().size(); ++i) {
-                if(i == initial_id) continue;
+                if (i == initial_id || i == terminal_id) continue; // Clearing the terminal state would remove the rules leading to it.
                 auto& app = approximation[i];
                 auto& state = pda.states_mutable()[i];
                 size_t br = 0;
-- 
2.43.0


From 822757c9d2a7e61cd66df79ee3d862ced23913c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:49 +0000
Subject: [PATCH 23/41] fix: pre* skipped push rules of label 0 with a negative
 weight

---
 src/include/pdaaal/internal/PdaSaturation.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index c9a8478..8798767 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -33,6 +33,12 @@
 namespace pdaaal::internal {
     constexpr auto epsilon = std::numeric_limits<uint32_t>::max();
 
+    // The rules of a state are ordered by their to-state first. Find the first one that goes to 'to' (whatever its label, operation and weight).
+    template<typename rules_t>
+    auto first_rule_to(const rules_t& rules, size_t to) {
+        return std::lower_bound(rules.begin(), rules.end(), to, [](const auto& elem, size_t to){ return elem.first._to < to; });
+    }
+
     struct temp_edge_t {
         size_t _from = std::numeric_limits<size_t>::max();
         size_t _to = std::numeric_limits<size_t>::max();
@@ -139,7 +145,7 @@ namespace pdaaal::internal {
             if(_popped[state]) return;
             for (auto pre_state : _pda_states[state]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                auto lb = first_rule_to(rules, state);
                 while (lb != rules.end() && lb->first._to == state) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -272,7 +278,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = first_rule_to(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -806,7 +812,7 @@ namespace pdaaal::internal {
                 _added_pop[state] = true;
                 for (auto pre_state : _pda_states[state]._pre_states) {
                     const auto &rules = _pda_states[pre_state]._rules;
-                    auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                    auto lb = first_rule_to(rules, state);
                     while (lb != rules.end() && lb->first._to == state) {
                         const auto& [rule, labels] = *lb;
                         size_t rule_id = lb - rules.begin();
@@ -858,7 +864,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return true; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto &rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = first_rule_to(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto &[rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
-- 
2.43.0


From 27561392f276a930978758d5f07ebe9046ce66bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:37 +0000
Subject: [PATCH 24/41] fix: fixed point computation stopped in the middle of
 the last round

---
 src/include/pdaaal/utils/workset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index e694f3c..458a9f2 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -74,7 +74,7 @@ namespace pdaaal {
             }
         }
         [[nodiscard]] bool done() const {
-            return _done || _rounds == _round_limit;
+            return _done || (_workset.empty() && _rounds == _round_limit); // The last round is run to its end.
         }
         void run() {
             while(!done()) {
-- 
2.43.0


From bbdf3e610838edc799d001cb4307e398decb2684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:20 +0000
Subject: [PATCH 25/41] fix: encoding of negated labels kept exactly the wrong
 abstract labels

---
 src/include/pdaaal/cegar/AbstractionPDA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/cegar/AbstractionPDA.h b/src/include/pdaaal/cegar/AbstractionPDA.h
index 5b9bd18..87c106b 100644
--- a/src/include/pdaaal/cegar/AbstractionPDA.h
+++ b/src/include/pdaaal/cegar/AbstractionPDA.h
@@ -65,7 +65,7 @@ namespace pdaaal {
                 abstract_labels.erase(std::remove_if(abstract_labels.begin(), abstract_labels.end(), [this, &labels](const auto& abstract_label){
                     auto concrete = _label_abstraction.get_concrete_values(abstract_label);
                     std::sort(concrete.begin(), concrete.end());
-                    return std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
+                    return !std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
                 }), abstract_labels.end());
             }
             return std::vector<uint32_t>(abstract_labels.begin(), abstract_labels.end()); // TODO: This is not optimal. Label type in PDA should be size_t instead of uint32_t. This is a change many places...
-- 
2.43.0


From fa7784d8e95e2d311ea527532451fa591103afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:30 +0000
Subject: [PATCH 26/41] fix: states without rules were not states of the PDA a
 factory compiles

An initial or accepting state of the factory that occurs in no rule was left
out of the PDA, so that its index was taken by a state of the automata, and
reachability was answered wrongly.
---
 src/include/pdaaal/PDAFactory.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/include/pdaaal/PDAFactory.h b/src/include/pdaaal/PDAFactory.h
index bb13f7a..4b315be 100644
--- a/src/include/pdaaal/PDAFactory.h
+++ b/src/include/pdaaal/PDAFactory.h
@@ -57,6 +57,9 @@ namespace pdaaal {
         // NFAs must be already compiled before passing them to this function.
         solver_instance_t compile(const NFA<label_t>& initial_headers, const NFA<label_t>& final_headers) {
             build_pda();
+            // Initial and accepting states are states of the PDA, also when they occur in no rule.
+            add_states(initial());
+            add_states(accepting());
             return solver_instance_t{pda_t{std::move(_temp_pda)}, initial_headers, initial(), final_headers, accepting()};
         }
     protected:
@@ -73,6 +76,15 @@ namespace pdaaal {
         }
 
         builder_pda_t _temp_pda;
+
+    private:
+        void add_states(const std::vector<size_t>& states) {
+            for (auto state : states) {
+                if (state >= _temp_pda.states().size()) {
+                    _temp_pda.states_mutable().resize(state + 1);
+                }
+            }
+        }
     };
 
     template<typename T, typename W = weight<void>, TraceInfoType trace_info_type = TraceInfoType::Single>
-- 
2.43.0


From 44343352edc8adc0553beb83ccec785cca2154ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:05 +0000
Subject: [PATCH 27/41] fix: states without rules were dropped when reading a
 PDA with a state array

The parser created only the states that occur in a rule, so that the document's
last states were missing from the PDA (and their indices were taken by states
of the P-automata).
---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 80985c6..12c4f8f 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -326,6 +326,9 @@ namespace pdaaal::parsing {
             }
             switch (current_context_type()) {
                 case context_type::state_array:
+                    if constexpr (!use_state_names) {
+                        build_pda.insert_state(current_from_state); // Also states without rules are in the PDA.
+                    }
                     push_context(state_context);
                     return true;
                 case context_type::rule_array:
-- 
2.43.0


From dfc9b32fff30aa6790394f2fecc3d21468452e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:52 +0000
Subject: [PATCH 28/41] fix: members of unknown objects and arrays were
 rejected when reading a PDA

Additional properties are allowed and skipped, but from the second element of
an unknown array or object on, the key was no longer known to be unknown.
---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 12c4f8f..3d644b2 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -187,6 +187,14 @@ namespace pdaaal::parsing {
                 last_key = keys::pda;
             }
         }
+
+        bool element_done() {
+            parent_t::element_done();
+            if (!no_context() && current_context_type() == context_type::unknown) {
+                last_key = keys::unknown; // All elements of an unknown object or array are unknown.
+            }
+            return true;
+        }
     public:
 
         explicit PdaSaxHandler(std::ostream& errors = std::cerr) : parent_t(errors) { init(); };
-- 
2.43.0


From bb436c562ddb3af1e634991b3501a3d6861279a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:24 +0000
Subject: [PATCH 29/41] fix: a scalar weight was accepted and ignored where
 weights are vectors

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 3d644b2..2f70aac 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -273,8 +273,10 @@ namespace pdaaal::parsing {
                             return false;
                         }
                         current_rule._weight = value;
+                        break;
+                    } else {
+                        return error_unexpected("unsigned", value);
                     }
-                    break;
                 case keys::unknown:
                     break;
                 default:
-- 
2.43.0


From ec24522f057d4fb984de83ac200b22f70d76aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 30/41] fix: a P-automaton without accepting states was written
 as JSON that cannot be read

The arrays of initial and accepting states are required by the parser, but were
left out when they are empty.
---
 src/include/pdaaal/PAutomaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index ffb478d..48c272b 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -143,6 +143,10 @@ namespace pdaaal {
     void to_json_impl(json& j, const PAutomaton<label_t,W,state_t,skip_state_mapping,trace_info_type>& automaton) {
         j = json::object();
         size_t num_pda_states = automaton.pda().states().size();
+        if constexpr(with_initial) {
+            j["initial"] = json::array();
+        }
+        j["accepting"] = json::array();
         json j_edges = json::array();
         for (const auto& state : automaton.states()) {
             json j_from;
-- 
2.43.0


From 30fdd3fadb5bf924997959c967377b34ddd5e095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 31/41] fix: a P-automaton edge of less than three elements was
 not rejected

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 14eb04f..031d8ae 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -377,6 +377,10 @@ namespace pdaaal::parsing {
             }
             switch (current_context_type()) {
                 case context_type::edge_context:
+                    if (current_context().get_index() != 3) {
+                        errors() << "error: An edge should contain exactly three elements." << std::endl;
+                        return false;
+                    }
                     assert(current_from_state != std::numeric_limits<size_t>::max());
                     assert(current_to_state != std::numeric_limits<size_t>::max());
                     if (current_label.empty()) {
-- 
2.43.0


From 4163b75ad94966408861cb1cc30fc56c79bb0086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:11 +0000
Subject: [PATCH 32/41] fix: reading a P-automaton with both named and numbered
 non-initial states

The name of a state that comes after a numbered one was recorded for another
state, so that edges of the two were mixed up.
---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 031d8ae..fe3ec15 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -129,6 +129,7 @@ namespace pdaaal::parsing {
         automaton_t automaton;
 
         std::unordered_map<size_t,size_t> extra_state_map;
+        std::unordered_map<std::string,size_t> extra_state_name_map;
 
         std::string current_label;
         size_t current_from_state = 0;
@@ -171,13 +172,20 @@ namespace pdaaal::parsing {
         std::optional<size_t> string_state(const string_t& state) {
             if constexpr(std::is_same_v<pda_state_t,std::string>) {
                 auto [exists, id] = automaton.exists_state(state);
-                if (!exists) {
-                    id = automaton.add_state(false, false); // accepting is set later.
+                if (exists) return id;
+                auto it = extra_state_name_map.find(state);
+                if (it != extra_state_name_map.end()) {
+                    return it->second;
+                }
+                id = automaton.add_state(false, false); // accepting is set later.
+                if (extra_state_map.empty()) {
 #ifndef NDEBUG
                     auto id2 =
 #endif
                             automaton.insert_state(state);
                     assert(id == id2);
+                } else { // The automaton can only record the names of its first non-initial states.
+                    extra_state_name_map.emplace(state,id);
                 }
                 return id;
             } else {
-- 
2.43.0


From d80afb04e6fc8b08889978f2d3b9ad7523fba76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 33/41] fix: shortest-trace pre* and dual search missed targets
 heavier than the last frontier

Both searches could end with an accepting product state whose weight is
larger than the weight of every edge on the search frontier and then
answer 'unreachable'. When the search is exhausted the product automaton
has the answer, as already done for post*.
---
 src/include/pdaaal/Solver.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index f7a1059..e504758 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -92,7 +92,7 @@ namespace pdaaal {
             {
                 /*typename W::type latest_prestar_queue_weight = W::zero();
                 typename W::type latest_poststar_queue_weight = W::zero();*/
-                return dual_short_search<W>(instance.final_automaton(), instance.initial_automaton(),
+                const bool found = dual_short_search<W>(instance.final_automaton(), instance.initial_automaton(),
                     [&instance/*,&latest_prestar_queue_weight,&latest_poststar_queue_weight*/]
                     (size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         /*latest_prestar_queue_weight = et_param;
@@ -106,7 +106,8 @@ namespace pdaaal {
                         return instance.template add_initial_edge<trace_type>(from, label, to, trace, /*std::move(w)*/ et_param);
                     }
                 );
-                return false;
+                // As in post_star_accepts: when one of the searches is exhausted, the product automaton has the answer.
+                return found || instance.product_automaton().has_accepting_state();
             }
             else
             {
@@ -181,15 +182,17 @@ namespace pdaaal {
         template <Trace_Type trace_type, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            return instance.template initialize_product<false,true,trace_type>() ||
-                   pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
+            if (instance.template initialize_product<false,true,trace_type>()) return true;
+            const bool found = pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest)
                             return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                         else
                             return instance.add_edge_product(from, label, to, trace);
 
                    });
-            }
+            // As in post_star_accepts: the shortest accepting path can be heavier than the search frontier ever gets.
+            return found || (trace_type == Trace_Type::Shortest && instance.product_automaton().has_accepting_state());
+        }
 
         template <Trace_Type trace_type, typename W, bool ET=false>
         static bool pre_star(internal::PAutomaton<W> &automaton,
-- 
2.43.0


From b59bffb555a99dd2134c3b1af4e03617e9f756e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:24 +0000
Subject: [PATCH 34/41] fix: unbounded weights were not propagated over epsilon
 edges in the post* fixed point

When a pushed edge of the post* fixed-point saturation became unbounded, the
edges over epsilon to its source were updated with the finite weight of the
round instead, so they (and everything derived from them) could stay bounded.
---
 src/include/pdaaal/internal/PdaSaturation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 8798767..29d10ed 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1052,9 +1052,10 @@ namespace pdaaal::internal {
                             update_edge<change_is_bottom>(rule._to, rule._op_label, q_new, W::zero(), trace);
                             if (update_edge<change_is_bottom>(q_new, t._label, t._to, wb, trace)) {
                                 assert(q_new >= _n_Q);
+                                const auto w_new = _automaton.get_edge(q_new, t._label, t._to)->second; // May be bottom, and not wb.
                                 for (auto f: _rel2[q_new - _n_Q]) {
                                     assert(_automaton.get_edge(f, epsilon, q_new) != nullptr);
-                                    update_edge<change_is_bottom>(f, t._label, t._to, solverW::add(wb, _automaton.get_edge(f, epsilon, q_new)->second), p_automaton_t::new_post_trace(q_new));
+                                    update_edge<change_is_bottom>(f, t._label, t._to, solverW::add(w_new, _automaton.get_edge(f, epsilon, q_new)->second), p_automaton_t::new_post_trace(q_new));
                                 }
                             }
                             break;
-- 
2.43.0


From 82b0bc9ed88aaf9bba4e2cc69d1cd1942d8f89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:57 +0000
Subject: [PATCH 35/41] fix: a regular expression ending in | made the parser
 read from an empty stack

---
 src/include/pdaaal/parsing/NfaParserGrammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/parsing/NfaParserGrammar.h b/src/include/pdaaal/parsing/NfaParserGrammar.h
index bdec27f..b606df8 100644
--- a/src/include/pdaaal/parsing/NfaParserGrammar.h
+++ b/src/include/pdaaal/parsing/NfaParserGrammar.h
@@ -55,7 +55,7 @@ namespace pdaaal {
     template<typename L, typename C>
     struct seq_expr : pegtl::seq<unary_expr<L, C>, pegtl::star<pegtl::seq<pegtl::star<ignored<C>>,unary_expr<L, C>>>> {};
     template<typename L, typename C>
-    struct nfa_expr : pegtl::list<seq_expr<L, C>, or_symbol, ignored < C>> {};
+    struct nfa_expr : pegtl::list_must<seq_expr<L, C>, or_symbol, ignored < C>> {};
     template<typename L, typename C>
     struct nfa_expr_or_empty : pegtl::opt<nfa_expr<L,C>> {};
 
-- 
2.43.0


From 31968f16c057afb965d9dd8b18f5d9f3baf384bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:57 +0000
Subject: [PATCH 36/41] fix: quoted names of states that do not exist were
 ignored in P-automaton texts

---
 src/pdaaal-bin/parsing/PAutomatonParser.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonParser.h b/src/pdaaal-bin/parsing/PAutomatonParser.h
index 624d53c..a643527 100644
--- a/src/pdaaal-bin/parsing/PAutomatonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonParser.h
@@ -41,8 +41,10 @@ namespace pdaaal::parsing {
         template<typename ParseInput, typename... States >
         explicit string_state(const ParseInput&, States&&...) { }
         template<typename ParseInput, typename... States >
-        void success(const ParseInput&, States&&... st) {
-            (st.accept_string(*this), ...);
+        void success(const ParseInput& in, States&&... st) {
+            if (!(st.accept_string(*this) && ...)) {
+                throw pegtl::parse_error("state is not found in the PDA.", in);
+            }
         }
     };
     struct string_literal : pegtl::state<string_state, pegtl::one< '"' >, pegtl::until< pegtl::one< '"' >, character > > {};
@@ -83,8 +85,8 @@ namespace pdaaal::parsing {
             }
             return found;
         }
-        void accept_string(const std::string& s) {
-            add_state(s);
+        bool accept_string(const std::string& s) {
+            return add_state(s);
         }
         [[nodiscard]] const std::function<uint32_t(const std::string&)>& get_label_map() const {
             return _label_mapping;
-- 
2.43.0


From 198aefb865478248f9b22aa3e33cb4d82a33338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:57 +0000
Subject: [PATCH 37/41] fix: epsilon edges on the best path failed an assertion
 in the fixed point

---
 src/include/pdaaal/internal/PAutomatonAlgorithms.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomatonAlgorithms.h b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
index 4fb2725..6e0ee50 100644
--- a/src/include/pdaaal/internal/PAutomatonAlgorithms.h
+++ b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
@@ -129,7 +129,7 @@ namespace pdaaal::internal {
             AutomatonPath path(state_map(_min_accepting_state));
             size_t state = _min_accepting_state;
             while (_states[state].predecessor != no_state) {
-                assert(_states[state].label != std::numeric_limits<uint32_t>::max());
+                assert(_states[state].predecessor != uninitialized_state); // The label can be epsilon: post* adds epsilon edges.
                 path.emplace(state_map(_states[state].predecessor), _states[state].label);
                 state = _states[state].predecessor;
                 assert(path.edges_size() <= _states.size()); // There should be no loop here - covered elsewhere.
@@ -163,7 +163,6 @@ namespace pdaaal::internal {
                     _current_state = _states[_current_state].predecessor;
                 }
                 if (_current_state == no_state) return std::nullopt; // Done searching.
-                assert(label != std::numeric_limits<uint32_t>::max());
                 assert(_current_state != uninitialized_state);
                 _path.emplace(_state_map(_current_state), label);
                 return label;
-- 
2.43.0


From d275967b3a4241533e11cc1561184e7447d603a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:18 +0000
Subject: [PATCH 38/41] fix: a number outside of any object was not rejected
 when reading a P-automaton

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index fe3ec15..991662d 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -207,6 +207,9 @@ namespace pdaaal::parsing {
         bool boolean(bool value) { return error_unexpected("boolean", value); }
         bool number_integer(number_integer_t value) { return error_unexpected("integer", value); }
         bool number_unsigned(number_unsigned_t value) {
+            if (no_context()) {
+                return error_unexpected("unsigned", value);
+            }
             switch (current_context_type()) {
                 case context_type::initial_array:
                     if constexpr(std::is_same_v<pda_state_t,size_t>) {
-- 
2.43.0


From 37ebc8ca5ebf16d02ee0542d47db74ef153e18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:18 +0000
Subject: [PATCH 39/41] fix: arrays inside the arrays of a P-automaton document
 were not rejected

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 991662d..e4c5aaf 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -365,6 +365,9 @@ namespace pdaaal::parsing {
                 current_label.clear();
                 return true;
             }
+            if (current_context_type() != context_type::p_automaton) { // Other arrays have no arrays as elements.
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::initial:
                     push_context(initial_array);
-- 
2.43.0


From d78299bc1f0b7162e186f0d325893c0db995b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:36 +0000
Subject: [PATCH 40/41] fix: arrays inside the arrays of a PDA document were
 not rejected

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 2f70aac..60f4d4a 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -471,6 +471,9 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
+            if (current_context().is_array()) { // The arrays of states, rules and weights have no arrays as elements.
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::states:
                     if constexpr (use_state_names) {
-- 
2.43.0


From 780c1ad7097298693bb9ab81f1a116cc5c86531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:53 +0000
Subject: [PATCH 41/41] fix: a number in place of the description of the type
 of a PDA was not rejected

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 60f4d4a..d573929 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -672,6 +672,9 @@ namespace pdaaal::parsing {
             return error_unexpected("integer", value);
         }
         bool number_unsigned(number_unsigned_t value) {
+            if (no_context()) {
+                return error_unexpected("unsigned", value);
+            }
             if (current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,1>(value)) return false;
                 weight_array_size.emplace(value);
-- 
2.43.0

