From c870a5411125e52e712fa803caead1ea45b0e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:30 +0000
Subject: [PATCH 01/36] fix: vector weight comparison advanced past the end of
 the shorter vector

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 668dfd6..d3428d5 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -178,7 +178,7 @@ namespace pdaaal {
                     auto l1 = lhs.end(), l2 = rhs.end();
                     bool exhaust1 = (f1 == l1);
                     bool exhaust2 = (f2 == l2);
-                    for (; !exhaust1 || !exhaust2; exhaust1 = (++f1 == l1), exhaust2 = (++f2 == l2)) {
+                    for (; !exhaust1 || !exhaust2; exhaust1 = exhaust1 || (++f1 == l1), exhaust2 = exhaust2 || (++f2 == l2)) {
                         auto v1 = exhaust1 ? weight<Inner>::zero() : *f1; // Missing elements are implicitly zero.
                         auto v2 = exhaust2 ? weight<Inner>::zero() : *f2;
                         if (weight_impl<Inner, maximize>::less(v1, v2)) return true;
-- 
2.43.0


From 4f5320a1d2918c117567c68ec465471f096be76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:30 +0000
Subject: [PATCH 02/36] fix: linear_weight_function accumulated in int,
 truncating other weight types

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index d3428d5..60d6b2c 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -222,7 +222,7 @@ namespace pdaaal {
             if (_function) {
                 return _function.value()(args...);
             }
-            return std::accumulate(_functions.begin(), _functions.end(), 0,
+            return std::accumulate(_functions.begin(), _functions.end(), static_cast<W>(0),
                     [&args...](const W& lhs, const std::pair<W, linear_weight_function<W, Args...>>& rhs) -> W {
                 return lhs + (rhs.first * rhs.second(args...));
             });
-- 
2.43.0


From 3eb695cd398f623e640e774fb23e7d9bc14cde9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:30 +0000
Subject: [PATCH 03/36] fix: trace_t equality did not compare labels

---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 1e765f1..41aef34 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -91,7 +91,7 @@ namespace pdaaal::internal {
                    _label == std::numeric_limits<uint32_t>::max();
         }
         friend constexpr bool operator==(const trace_t& l, const trace_t& r) {
-            return l._state == r._state && l._rule_id == r._rule_id && l._label && r._label;
+            return l._state == r._state && l._rule_id == r._rule_id && l._label == r._label;
         }
         friend constexpr bool operator!=(const trace_t& l, const trace_t& r) {
             return !(l == r);
-- 
2.43.0


From 2b6dbcea7aaf9f137919c137f857f447a0bf2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:30 +0000
Subject: [PATCH 04/36] fix: NFA copy assignment kept the states of the
 assigned-to NFA

---
 src/include/pdaaal/NFA.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 3544662..826e772 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -291,6 +291,10 @@ namespace pdaaal {
 
         
         NFA& operator=(const NFA& other) {
+            if (this == &other) return *this;
+            _states.clear();
+            _initial.clear();
+            _accepting.clear();
             std::unordered_map<state_t*, state_t*> indir;
             for(auto& s : other._states) {
                 _states.emplace_back(std::make_unique<state_t>(*s));
-- 
2.43.0


From e921efd001ac37e234df0488c318f3a40c549fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:30 +0000
Subject: [PATCH 05/36] fix: intersect_edge_labels carried labels over from
 earlier edges

---
 src/include/pdaaal/NFA.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 826e772..8ed1120 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -270,6 +270,7 @@ namespace pdaaal {
                     result.reserve(labels.size());
                     temp_union.reserve(labels.size());
                     temp.reserve(labels.size());
+                    temp.clear();
                     if (e._negated) {
                         std::set_difference(labels.begin(), labels.end(), e._symbols.begin(), e._symbols.end(), std::back_inserter(temp));
                     } else {
-- 
2.43.0


From 58a77bc3e7d65376ebfa3f6d40d267e8c822c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:30 +0000
Subject: [PATCH 06/36] fix: optional and star of an NFA whose initial state
 can be re-entered accepted too much

---
 src/include/pdaaal/NFA.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 8ed1120..d276f39 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -335,6 +335,15 @@ namespace pdaaal {
         }
         
         void question_extend() {
+            if(std::any_of(_initial.begin(), _initial.end(), [](const state_t* s){ return !s->_backedges.empty(); })) {
+                // An initial state that can be re-entered must not become accepting itself.
+                _states.emplace_back(std::make_unique<state_t>(false));
+                auto initial = _states.back().get();
+                for(auto i : _initial) {
+                    initial->add_epsilon_edge(i);
+                }
+                _initial = {initial};
+            }
             for(auto s : _initial) {
                 if(!s->_accepting) {
                     s->_accepting = true;
@@ -361,8 +370,8 @@ namespace pdaaal {
         }
 
         void star_extend() {
-            plus_extend();
             question_extend();
+            plus_extend();
         }
 
         void and_extend(NFA&& other) {
-- 
2.43.0


From 7c04e0366f528ee789c832c997159591474e8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 07/36] fix: pre* for shortest traces kept the old trace when
 an edge's weight improved

---
 src/include/pdaaal/internal/PdaSaturation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3c1c1a9..2dcaa16 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -194,7 +194,7 @@ namespace pdaaal::internal {
                     _workset.emplace(from, label, to, std::move(res), trace);
                 } else {
                     if(solver_weight::less(weight, it->second.second)) {
-                        it->second.second = std::move(weight);
+                        it->second = std::make_pair(trace, std::move(weight));
                         _workset.emplace(from, label, to, std::move(res), trace);
                     }
                 }
-- 
2.43.0


From 0c1e622595622f8e1ced51b664d56d8411e386b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:17 +0000
Subject: [PATCH 08/36] fix: pre* for shortest traces ignored edge weights
 without early termination

---
 src/include/pdaaal/internal/PdaSaturation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 2dcaa16..8bef826 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -222,7 +222,7 @@ namespace pdaaal::internal {
 
         weight_t get_pautomata_edge_weight(auto from, auto label, auto to)
         {
-            if constexpr (ET && W::is_weight)
+            if constexpr (SHORTEST && W::is_weight)
                 return  _automaton.get_edge(from, label, to)->second;
             return weight_t{};
         }
-- 
2.43.0


From c8da75fea814654b894ce208c85397e527af56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:17 +0000
Subject: [PATCH 09/36] fix: json_stream did not escape keys

---
 src/pdaaal-bin/utils/json_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/utils/json_stream.h b/src/pdaaal-bin/utils/json_stream.h
index 7bf3db6..d60050e 100644
--- a/src/pdaaal-bin/utils/json_stream.h
+++ b/src/pdaaal-bin/utils/json_stream.h
@@ -93,7 +93,7 @@ private:
         } else {
             _out << ',' << std::endl;
         }
-        return indent() << "\"" << key << "\" : ";
+        return indent() << json(key).dump() << " : ";
     }
 
     bool _started = false;
-- 
2.43.0


From e53cd9f371197fdbb97ec463b748a07b16b6d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:17 +0000
Subject: [PATCH 10/36] fix: rule trace of a dual search read the first rule of
 an empty trace

---
 src/include/pdaaal/Solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 8ab4ed5..afc7a81 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -454,7 +454,8 @@ namespace pdaaal {
             auto [trace2, final_stack, final_path] = _get_trace_stack_path(final_automaton, std::move(final_automaton_path));
             // Concat traces
             trace.insert(trace.end(), trace2.begin(), trace2.end());
-            return std::make_tuple(trace[0].from(), std::move(trace),
+            auto initial_state = trace.empty() ? paths.value().front_state().first : trace[0].from();
+            return std::make_tuple(initial_state, std::move(trace),
                                    std::move(initial_stack), std::move(final_stack),
                                    std::move(initial_path), std::move(final_path));
         }
-- 
2.43.0


From 9db35ab227e295be3871b12812e2af41c6f28d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:40 +0000
Subject: [PATCH 11/36] fix: abstraction of a negated edge excluded exactly the
 abstract labels it should allow

---
 src/include/pdaaal/cegar/AbstractionPDA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/cegar/AbstractionPDA.h b/src/include/pdaaal/cegar/AbstractionPDA.h
index 5b9bd18..87c106b 100644
--- a/src/include/pdaaal/cegar/AbstractionPDA.h
+++ b/src/include/pdaaal/cegar/AbstractionPDA.h
@@ -65,7 +65,7 @@ namespace pdaaal {
                 abstract_labels.erase(std::remove_if(abstract_labels.begin(), abstract_labels.end(), [this, &labels](const auto& abstract_label){
                     auto concrete = _label_abstraction.get_concrete_values(abstract_label);
                     std::sort(concrete.begin(), concrete.end());
-                    return std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
+                    return !std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
                 }), abstract_labels.end());
             }
             return std::vector<uint32_t>(abstract_labels.begin(), abstract_labels.end()); // TODO: This is not optimal. Label type in PDA should be size_t instead of uint32_t. This is a change many places...
-- 
2.43.0


From ad1ce3d6bd015f96b500709d434624bb0d7d0782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 12/36] fix: a quoted state name unknown to the PDA was
 silently dropped from a P-automaton expression

Unquoted unknown names are rejected; quoted ones were ignored, so the
expression denoted fewer initial states than written.
---
 src/pdaaal-bin/parsing/PAutomatonParser.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonParser.h b/src/pdaaal-bin/parsing/PAutomatonParser.h
index 624d53c..88bc5ac 100644
--- a/src/pdaaal-bin/parsing/PAutomatonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonParser.h
@@ -41,8 +41,8 @@ namespace pdaaal::parsing {
         template<typename ParseInput, typename... States >
         explicit string_state(const ParseInput&, States&&...) { }
         template<typename ParseInput, typename... States >
-        void success(const ParseInput&, States&&... st) {
-            (st.accept_string(*this), ...);
+        void success(const ParseInput& in, States&&... st) {
+            (st.accept_string(*this, in), ...);
         }
     };
     struct string_literal : pegtl::state<string_state, pegtl::one< '"' >, pegtl::until< pegtl::one< '"' >, character > > {};
@@ -83,8 +83,11 @@ namespace pdaaal::parsing {
             }
             return found;
         }
-        void accept_string(const std::string& s) {
-            add_state(s);
+        template<typename ParseInput>
+        void accept_string(const std::string& s, const ParseInput& in) {
+            if (!add_state(s)) {
+                throw pegtl::parse_error("state is not found in the PDA.", in);
+            }
         }
         [[nodiscard]] const std::function<uint32_t(const std::string&)>& get_label_map() const {
             return _label_mapping;
-- 
2.43.0


From ea07c2bbd8fcdb878b9041b2a923e82680897f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 13/36] fix: P-automaton JSON reader accepted malformed edges
 and nested arrays

An edge with fewer than three elements was added with an out-of-range
state (memory corruption), arrays inside arrays were flattened, and a
number outside of any object read the top of an empty context stack.
---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 14eb04f..21ee3f5 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -199,6 +199,9 @@ namespace pdaaal::parsing {
         bool boolean(bool value) { return error_unexpected("boolean", value); }
         bool number_integer(number_integer_t value) { return error_unexpected("integer", value); }
         bool number_unsigned(number_unsigned_t value) {
+            if (no_context()) {
+                return error_unexpected("unsigned", value);
+            }
             switch (current_context_type()) {
                 case context_type::initial_array:
                     if constexpr(std::is_same_v<pda_state_t,size_t>) {
@@ -354,6 +357,9 @@ namespace pdaaal::parsing {
                 current_label.clear();
                 return true;
             }
+            if (current_context().is_array()) { // Only the array of edges contains arrays.
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::initial:
                     push_context(initial_array);
@@ -377,6 +383,10 @@ namespace pdaaal::parsing {
             }
             switch (current_context_type()) {
                 case context_type::edge_context:
+                    if (current_context().get_index() != 3) {
+                        errors() << "error: An edge should contain exactly three elements." << std::endl;
+                        return false;
+                    }
                     assert(current_from_state != std::numeric_limits<size_t>::max());
                     assert(current_to_state != std::numeric_limits<size_t>::max());
                     if (current_label.empty()) {
-- 
2.43.0


From 663f127e6e2e62f452dfbf7cc0ecffeb63f2add9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 14/36] fix: PDA JSON reader rejected additional properties
 with more than one value

Unknown keys are allowed (additionalProperties), but only the first value
inside an unknown object or array was ignored.
---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 80985c6..b836116 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -187,6 +187,13 @@ namespace pdaaal::parsing {
                 last_key = keys::pda;
             }
         }
+        bool element_done() {
+            parent_t::element_done();
+            if (!no_context() && current_context_type() == context_type::unknown) {
+                last_key = keys::unknown; // Everything inside an unknown value is ignored.
+            }
+            return true;
+        }
     public:
 
         explicit PdaSaxHandler(std::ostream& errors = std::cerr) : parent_t(errors) { init(); };
-- 
2.43.0


From 73a05d50413ef061abe6136fc12fdb65c0733810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 15/36] fix: PDA JSON reader ignored a scalar weight for vector
 weights and flattened nested arrays

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index b836116..2eac55c 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -265,6 +265,8 @@ namespace pdaaal::parsing {
                         current_rule._to = value;
                         break;
                     }
+                case keys::unknown:
+                    break;
                 case keys::weight:
                     if constexpr (expect_weight && !W::is_vector) {
                         if (value >= std::numeric_limits<typename W::type>::max()) {
@@ -272,10 +274,8 @@ namespace pdaaal::parsing {
                             return false;
                         }
                         current_rule._weight = value;
+                        break;
                     }
-                    break;
-                case keys::unknown:
-                    break;
                 default:
                     return error_unexpected("unsigned", value);
             }
@@ -465,6 +465,9 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
+            if (current_context().is_array()) { // None of the arrays directly contain arrays.
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::states:
                     if constexpr (use_state_names) {
-- 
2.43.0


From 967a015c2335fb10f5a17598f17635708bfc88ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 16/36] fix: weight-type with an array size, as written by
 to_json, was rejected by the reader

handle_index advanced the array index, and element_done advanced it again.
---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 2eac55c..50f48a0 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -581,7 +581,6 @@ namespace pdaaal::parsing {
                 print_value(s, value) << "at index " << current_context().get_index() << " in " << type << " was expected to be at index " << index << "." << std::endl;
                 return false;
             }
-            current_context().increment_index();
             return true;
         }
 
-- 
2.43.0


From 1130499ef26328510e5857b4bb700d78873d82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 17/36] fix: PDA type reader treated unrecognized weight types
 as unweighted and read an empty context stack

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 50f48a0..89ea138 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -665,7 +665,7 @@ namespace pdaaal::parsing {
             return error_unexpected("integer", value);
         }
         bool number_unsigned(number_unsigned_t value) {
-            if (current_context_type() == context_type::weight_array) {
+            if (!no_context() && current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,1>(value)) return false;
                 weight_array_size.emplace(value);
                 return element_done();
@@ -679,12 +679,12 @@ namespace pdaaal::parsing {
             if (no_context()) {
                 return error_unexpected("string", value);
             }
-            if (current_context_type() == context_type::weight_array) {
-                if (!handle_index<context_type::weight_array,0>(value)) return false;
-                weight_str = value;
-                return element_done();
-            }
             if (last_key == keys::weight_type) {
+                if (value != "none" && value != "uint" && value != "int") {
+                    return error_unexpected("string", value, "Unrecognized weight type.");
+                }
+                if (current_context_type() == context_type::weight_array
+                    && !handle_index<context_type::weight_array,0>(value)) return false;
                 weight_str = value;
                 return element_done();
             }
@@ -732,7 +732,7 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
-            if (last_key == keys::weight_type) {
+            if (last_key == keys::weight_type && !use_weight_array) {
                 push_context(weight_array_context);
                 use_weight_array = true;
                 return true;
@@ -744,6 +744,10 @@ namespace pdaaal::parsing {
                 errors() << "error: Unexpected end of array." << std::endl;
                 return false;
             }
+            if (weight_str.empty()) {
+                errors() << "error: Missing weight type in " << current_context_type() << "." << std::endl;
+                return false;
+            }
             pop_context();
             return element_done();
         }
-- 
2.43.0


From daff342ebc14ef2551a3593c7fac8822c10c3b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:16 +0000
Subject: [PATCH 18/36] fix: rule trace of an empty post* trace swapped the
 initial and final paths

---
 src/include/pdaaal/Solver.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index afc7a81..830ab6b 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -319,13 +319,13 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths), weight);
+                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton()), weight);
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
             } else {
                 auto paths = instance.template find_path<trace_type, true>();
-                return _get_rule_trace_and_paths(instance.automaton(), paths);
+                return _get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton());
             }
         }
 
@@ -399,7 +399,8 @@ namespace pdaaal {
                 std::vector<size_t>, // Path in initial PAutomaton (accepting initial stack)
                 std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
                 > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type>& automaton, // The PAutomaton that has been build up (either A_pre* or A_post*)
-                                            const AutomatonPath<true>& paths) {
+                                            const AutomatonPath<true>& paths,
+                                            bool post) { // Whether automaton is A_post*. (An empty trace does not tell.)
             using rule_t = user_rule_t<W>;
 
             if (paths.is_null()) {
@@ -419,9 +420,10 @@ namespace pdaaal {
             // Get accepting path of initial stack (and the initial stack itself - for post*)
             auto [start_path, start_stack] = tb.path().get_path_and_stack();
 
-            if (tb.post()) { // post* was used
+            if (post) { // post* was used
                 std::reverse(trace.begin(), trace.end());
-                return std::make_tuple(trace[0].from(), std::move(trace),
+                auto initial_state = trace.empty() ? paths.front_state().first : trace[0].from();
+                return std::make_tuple(initial_state, std::move(trace),
                                        std::move(start_stack), std::move(goal_stack),
                                        std::move(start_path), std::move(goal_path));
             } else { // pre* was used
-- 
2.43.0


From 30dc4b103795c4aada474c48c0663aba992767dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:16 +0000
Subject: [PATCH 19/36] fix: dual search rule trace did not recognise that
 there is no trace

---
 src/include/pdaaal/Solver.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 830ab6b..1c9245e 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -443,20 +443,20 @@ namespace pdaaal {
         std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
         > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type1>& initial_automaton,
                                     const internal::PAutomaton<W,trace_info_type2>& final_automaton,
-                                    const std::optional<AutomatonPath<true>>& paths) {
+                                    const AutomatonPath<true>& paths) {
             using rule_t = user_rule_t<W>;
 
-            if (!paths.has_value()) {
+            if (paths.is_null()) {
                 return std::make_tuple(std::numeric_limits<size_t>::max(), std::vector<rule_t>(), std::vector<uint32_t>(), std::vector<uint32_t>(), std::vector<size_t>(), std::vector<size_t>());
             }
             // The paths was retrieved from the product automaton. First number is the state in initial_automaton, second number is state in final_automaton.
-            auto [initial_automaton_path, final_automaton_path] = paths.value().split();
+            auto [initial_automaton_path, final_automaton_path] = paths.split();
             final_automaton_path.remove_epsilon(); // post* may add an epsilon-edge as first. this edge is not in pre* automaton (final_automaton), so remove it from f_path.
             auto [trace, initial_stack, initial_path] = _get_trace_stack_path(initial_automaton, std::move(initial_automaton_path));
             auto [trace2, final_stack, final_path] = _get_trace_stack_path(final_automaton, std::move(final_automaton_path));
             // Concat traces
             trace.insert(trace.end(), trace2.begin(), trace2.end());
-            auto initial_state = trace.empty() ? paths.value().front_state().first : trace[0].from();
+            auto initial_state = trace.empty() ? paths.front_state().first : trace[0].from();
             return std::make_tuple(initial_state, std::move(trace),
                                    std::move(initial_stack), std::move(final_stack),
                                    std::move(initial_path), std::move(final_path));
-- 
2.43.0


From 1829762bdbd5985ca9751041b8c3918e740c3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:58 +0000
Subject: [PATCH 20/36] fix: saturations kept a reference to a temporary early
 termination function

---
 src/include/pdaaal/internal/PdaSaturation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 8bef826..ddd13b0 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -113,7 +113,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 42)
 
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_automaton_states;
@@ -355,7 +355,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 48)
 
         p_automaton_t& _automaton;
-        const early_termination_fn<W>& _early_termination;
+        const early_termination_fn<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
@@ -525,7 +525,7 @@ namespace pdaaal::internal {
 
     private:
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
-- 
2.43.0


From 704c52899814ad20310871d306f5cca3ccea5985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:37 +0000
Subject: [PATCH 21/36] fix: optional and star of an NFA without states did not
 accept the empty word

---
 src/include/pdaaal/NFA.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index d276f39..ffd47e7 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -335,8 +335,8 @@ namespace pdaaal {
         }
         
         void question_extend() {
-            if(std::any_of(_initial.begin(), _initial.end(), [](const state_t* s){ return !s->_backedges.empty(); })) {
-                // An initial state that can be re-entered must not become accepting itself.
+            if(_initial.empty() || std::any_of(_initial.begin(), _initial.end(), [](const state_t* s){ return !s->_backedges.empty(); })) {
+                // An initial state that can be re-entered must not become accepting itself. (And the empty NFA has none.)
                 _states.emplace_back(std::make_unique<state_t>(false));
                 auto initial = _states.back().get();
                 for(auto i : _initial) {
-- 
2.43.0


From 9e50bec9780a76f8cf2f354f11bb8cbb17dfa2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:37 +0000
Subject: [PATCH 22/36] fix: copy of a compiled NFA did not keep its states
 sorted

---
 src/include/pdaaal/NFA.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index ffd47e7..93f3fc8 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -316,6 +316,9 @@ namespace pdaaal {
             for(auto& s : other._initial) {
                 _initial.push_back(indir[s]);
             }
+            // Pointer order differs in the copy. Keep what compile() provides.
+            std::sort(_accepting.begin(), _accepting.end());
+            std::sort(_initial.begin(), _initial.end());
             return *this;
         }
 
-- 
2.43.0


From 1d36ee652a4e913855fcb1e9ef2ccc4637ad19a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:50 +0000
Subject: [PATCH 23/36] fix: shortest accept_path could start in another state
 than the given one

An epsilon edge followed from the given state left no entry of that state in
the path, so the trace built from it failed or started elsewhere. post* adds
the contracted edges, so (as in accepts) epsilon edges need not be followed.
---
 src/include/pdaaal/internal/PAutomaton.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 41aef34..d219c9c 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -604,10 +604,6 @@ namespace pdaaal::internal {
                                 search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, label->second), to, current._stack_index + 1, pointer);
                             }
                         }
-                        auto eps_label = labels.get(epsilon);
-                        if (eps_label != nullptr) {
-                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer->_back_pointer);
-                        }
                     }
                 }
                 return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
-- 
2.43.0


From 6a19eb7e408e2a140e233ba5086c38cafcd8e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:50 +0000
Subject: [PATCH 24/36] fix: get_trace of a configuration that is not accepted
 used the back of an empty path

---
 src/include/pdaaal/Solver.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 1c9245e..54cacd7 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -335,10 +335,10 @@ namespace pdaaal {
             auto stack_native = pda.encode_pre(stack);
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _make_path(path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _make_path(path, stack_native));
             }
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename T, typename W, typename = std::enable_if_t<!std::is_same_v<T,uint32_t>>>
@@ -346,14 +346,18 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _make_path(path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _make_path(path, stack_native));
             }
         }
 
     private:
+        static AutomatonPath<> _make_path(const std::vector<size_t>& path, const std::vector<uint32_t>& stack) {
+            return path.empty() ? AutomatonPath<>() : AutomatonPath<>(path, stack); // Empty path means not accepted.
+        }
+
         template <typename T, typename W, typename S, bool ssm>
         static typename PDA<T,W,fut::type::vector,S,ssm>::tracestate_t
         _decode_edges(const PDA<T,W,fut::type::vector,S,ssm> &pda, const AutomatonPath<>& path) {
-- 
2.43.0


From f9fb334cdd97cded44a94e8fb6e0c6a9658198c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:46 +0000
Subject: [PATCH 25/36] fix: empty stack reached by popping the last symbol was
 not accepted after post*

---
 src/include/pdaaal/Solver.h              |  4 +++-
 src/include/pdaaal/internal/PAutomaton.h | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 54cacd7..88279f3 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -355,7 +355,9 @@ namespace pdaaal {
 
     private:
         static AutomatonPath<> _make_path(const std::vector<size_t>& path, const std::vector<uint32_t>& stack) {
-            return path.empty() ? AutomatonPath<>() : AutomatonPath<>(path, stack); // Empty path means not accepted.
+            if (path.empty()) return AutomatonPath<>(); // Empty path means not accepted.
+            if (path.size() > stack.size() + 1) return AutomatonPath<>(path, std::vector<uint32_t>{internal::epsilon}); // Empty stack accepted by an epsilon-edge.
+            return AutomatonPath<>(path, stack);
         }
 
         template <typename T, typename W, typename S, bool ssm>
diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index d219c9c..b9dd5e6 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -509,7 +509,7 @@ namespace pdaaal::internal {
             //Equivalent to (but hopefully faster than): return !_accept_path(state, stack).empty();
 
             if (stack.empty()) {
-                return _states[state]->_accepting;
+                return _states[state]->_accepting || epsilon_to_accepting(state) != nullptr;
             }
             // DFS search.
             std::stack<std::pair<size_t, size_t>> search_stack;
@@ -540,6 +540,8 @@ namespace pdaaal::internal {
                 if (stack.empty()) {
                     if (_states[state]->_accepting) {
                         return std::make_pair(std::vector<size_t>{state}, W::zero());
+                    } else if (auto to = epsilon_to_accepting(state); to != nullptr) {
+                        return std::make_pair(std::vector<size_t>{state, to->_id}, _states[state]->_edges.get(to->_id, epsilon)->second);
                     } else {
                         return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
                     }
@@ -611,6 +613,8 @@ namespace pdaaal::internal {
                 if (stack.empty()) {
                     if (_states[state]->_accepting) {
                         return std::vector<size_t>{state};
+                    } else if (auto to = epsilon_to_accepting(state); to != nullptr) {
+                        return std::vector<size_t>{state, to->_id};
                     } else {
                         return std::vector<size_t>();
                     }
@@ -885,6 +889,19 @@ namespace pdaaal::internal {
             }
         }
     private:
+        // The accepting state that state has its (best) epsilon-edge to, if any. post* adds these edges when the last symbol is popped.
+        [[nodiscard]] const state_t* epsilon_to_accepting(size_t state) const {
+            const state_t* result = nullptr;
+            for (const auto& [to,labels] : _states[state]->_edges) {
+                if (!_states[to]->_accepting || !labels.contains(epsilon)) continue;
+                if constexpr (W::is_weight) {
+                    if (result != nullptr && !solver_weight<W,Trace_Type::Shortest>::less(labels.get(epsilon)->second, _states[state]->_edges.get(result->_id, epsilon)->second)) continue;
+                }
+                result = _states[to].get();
+            }
+            return result;
+        }
+
         std::vector<std::unique_ptr<state_t>> _states;
         std::vector<state_t *> _initial;
         std::vector<state_t *> _accepting;
-- 
2.43.0


From 3fad5407a8636330c1ee77af17e205299c565394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 26/36] fix: rule traces of weighted PDAs did not compile

---
 src/include/pdaaal/internal/PDA.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/internal/PDA.h b/src/include/pdaaal/internal/PDA.h
index 1f0f8c3..c5216d2 100644
--- a/src/include/pdaaal/internal/PDA.h
+++ b/src/include/pdaaal/internal/PDA.h
@@ -199,6 +199,10 @@ namespace pdaaal {
         }
         bool operator!=(const user_rule_t<W>& other) const { return !(*this == other); }
 
+        [[nodiscard]] size_t from() const {
+            return _from;
+        }
+
         internal::pda_rule_t<W> to_impl_rule() const {
             return internal::pda_rule_t<W>{_to, _op, _weight, _op_label};
         }
-- 
2.43.0


From 60c9436ea59b9fdde643e401d58f40bd496f31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:04 +0000
Subject: [PATCH 27/36] fix: shortest pre* gave edges into an accepting state
 without edges the maximal weight

---
 src/include/pdaaal/internal/PdaSaturation.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index ddd13b0..3c113f3 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -176,7 +176,10 @@ namespace pdaaal::internal {
                         } else throw std::logic_error("Shortest traces for void-weights is not supported.");
                     }
                 }
-                if(from->_accepting) add_pop(from->_id);
+                if(from->_accepting) {
+                    if constexpr (W::is_weight && SHORTEST) _minpath[from->_id] = solver_weight::zero();
+                    add_pop(from->_id);
+                }
             }
         }
 
-- 
2.43.0


From 613d3428d345ec4656478be13dd17e297e9fe621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:51 +0000
Subject: [PATCH 28/36] fix: shortest pre* and dual search built the initial
 product without back edges

---
 src/include/pdaaal/Solver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 88279f3..39705d0 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -83,7 +83,7 @@ namespace pdaaal {
 
         template <Trace_Type trace_type,typename pda_t, typename automaton_t, typename W>
         static bool dual_search_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            if (instance.template initialize_product<true>()) {
+            if (instance.template initialize_product<true,true,trace_type>()) {
                 return true;
             }
             // we could *probably* avoid some dupplication here if the pre/post* algorithms
@@ -181,7 +181,7 @@ namespace pdaaal {
         template <Trace_Type trace_type, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            return instance.initialize_product() ||
+            return instance.template initialize_product<false,true,trace_type>() ||
                    pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest)
                             return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
-- 
2.43.0


From 319b25baa4e45fbb582b2f821c34a5c90a1301f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:40 +0000
Subject: [PATCH 29/36] fix: best weight of initially accepting product states
 was uninitialized

---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index b9dd5e6..f8a4dc6 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -175,7 +175,7 @@ namespace pdaaal::internal {
             // TODO: Move this out to sub-class IncrementalPAutomaton
             size_t _back_edge_state = std::numeric_limits<size_t>::max(); // Use the back_edge_state to check for existence of a back_edge.
             uint32_t _back_edge_label = std::numeric_limits<uint32_t>::max()-1; // The null value should not equal epsilon (defensive defaults)
-            weight_or_bool_t _best_weight;
+            weight_or_bool_t _best_weight{}; // Zero for initial states.
 
             state_t(bool accepting, size_t id) : _accepting(accepting), _id(id) {};
 
-- 
2.43.0


From 36fcca529e47d72d762c59143fe0413113cdd38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:13 +0000
Subject: [PATCH 30/36] fix: fixed-point path search took an epsilon label for
 a missing one

---
 src/include/pdaaal/internal/PAutomatonAlgorithms.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomatonAlgorithms.h b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
index 4fb2725..f7413e0 100644
--- a/src/include/pdaaal/internal/PAutomatonAlgorithms.h
+++ b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
@@ -41,8 +41,8 @@ namespace pdaaal::internal {
         using solverW = solver_weight<W,trace_type>;
         struct state_info {
             typename W::type weight = solverW::max();
-            uint32_t first_label = std::numeric_limits<uint32_t>::max();
-            uint32_t label = std::numeric_limits<uint32_t>::max();
+            uint32_t first_label = std::numeric_limits<uint32_t>::max()-1; // The null value should not equal epsilon.
+            uint32_t label = std::numeric_limits<uint32_t>::max()-1;
             size_t first_predecessor = uninitialized_state;
             size_t predecessor = uninitialized_state;
             bool in_queue = false;
@@ -129,7 +129,7 @@ namespace pdaaal::internal {
             AutomatonPath path(state_map(_min_accepting_state));
             size_t state = _min_accepting_state;
             while (_states[state].predecessor != no_state) {
-                assert(_states[state].label != std::numeric_limits<uint32_t>::max());
+                assert(_states[state].label != std::numeric_limits<uint32_t>::max()-1);
                 path.emplace(state_map(_states[state].predecessor), _states[state].label);
                 state = _states[state].predecessor;
                 assert(path.edges_size() <= _states.size()); // There should be no loop here - covered elsewhere.
@@ -163,7 +163,7 @@ namespace pdaaal::internal {
                     _current_state = _states[_current_state].predecessor;
                 }
                 if (_current_state == no_state) return std::nullopt; // Done searching.
-                assert(label != std::numeric_limits<uint32_t>::max());
+                assert(label != std::numeric_limits<uint32_t>::max()-1);
                 assert(_current_state != uninitialized_state);
                 _path.emplace(_state_map(_current_state), label);
                 return label;
-- 
2.43.0


From edc9d8bf17cf1cb5cf6aa2147e2a4fd9546129d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:42 +0000
Subject: [PATCH 31/36] fix: fixed-point iteration stopped in the middle of its
 last round

---
 src/include/pdaaal/utils/workset.h | 188 ++++++++++++++---------------
 1 file changed, 94 insertions(+), 94 deletions(-)

diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index e694f3c..6278435 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -1,94 +1,94 @@
-/* 
- * This program is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- * 
- * This program is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- * 
- * You should have received a copy of the GNU General Public License
- * along with this program.  If not, see <http://www.gnu.org/licenses/>.
- */
-
-/*
- *  Copyright Morten K. Schou
- */
-
-/* 
- * File:   workset.h
- * Author: Morten K. Schou <morten@h-schou.dk>
- *
- * Created on 23-08-2021.
- */
-
-#ifndef PDAAAL_WORKSET_H
-#define PDAAAL_WORKSET_H
-
-#include <cassert>
-#include <stack>
-#include <queue>
-
-namespace pdaaal {
-
-    template<typename Derived, typename Elem, bool enforce_set = true>
-    class fixed_point_workset {
-        bool _done = false;
-        size_t _round_limit;
-        size_t _rounds = 0;
-        std::vector<Elem> _workset;
-        std::vector<Elem> _next_workset;
-    public:
-        explicit fixed_point_workset(size_t round_limit = 0) : _round_limit(round_limit) { };
-
-        template<bool change_is_bottom = false>
-        bool step() {
-            if (_workset.empty()) {
-                ++_rounds;
-                if (_next_workset.empty()) {
-                    _done = true;
-                    return false;
-                }
-                if constexpr (enforce_set) { // Remove duplicates, if this is not ensured somewhere else.
-                    std::sort(_next_workset.begin(), _next_workset.end());
-                    _next_workset.erase(std::unique(_next_workset.begin(), _next_workset.end()), _next_workset.end());
-                }
-                std::swap(_workset, _next_workset);
-            }
-
-            auto current = _workset.back();
-            _workset.pop_back();
-
-            if (!static_cast<Derived*>(this)->template step_with<change_is_bottom>(std::move(current))) {
-                _done = true;
-                return false;
-            }
-            return true;
-        }
-        void finalize() {
-            _rounds = 0; // Reset _round count and run again, this time changes gives -inf weight.
-            while (!done()) {
-                step<true>();
-            }
-        }
-        [[nodiscard]] bool done() const {
-            return _done || _rounds == _round_limit;
-        }
-        void run() {
-            while(!done()) {
-                step();
-            }
-            finalize();
-        }
-    protected:
-        template<typename... Args>
-        auto emplace(Args&&... args){
-            return _next_workset.emplace_back(std::forward<Args>(args)...);
-        }
-        void set_round_limit(size_t new_round_limit) { _round_limit = new_round_limit; }
-    };
-}
-
-#endif //PDAAAL_WORKSET_H
+/* 
+ * This program is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ * 
+ * This program is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ * 
+ * You should have received a copy of the GNU General Public License
+ * along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+/*
+ *  Copyright Morten K. Schou
+ */
+
+/* 
+ * File:   workset.h
+ * Author: Morten K. Schou <morten@h-schou.dk>
+ *
+ * Created on 23-08-2021.
+ */
+
+#ifndef PDAAAL_WORKSET_H
+#define PDAAAL_WORKSET_H
+
+#include <cassert>
+#include <stack>
+#include <queue>
+
+namespace pdaaal {
+
+    template<typename Derived, typename Elem, bool enforce_set = true>
+    class fixed_point_workset {
+        bool _done = false;
+        size_t _round_limit;
+        size_t _rounds = 0;
+        std::vector<Elem> _workset;
+        std::vector<Elem> _next_workset;
+    public:
+        explicit fixed_point_workset(size_t round_limit = 0) : _round_limit(round_limit) { };
+
+        template<bool change_is_bottom = false>
+        bool step() {
+            if (_workset.empty()) {
+                ++_rounds;
+                if (_next_workset.empty()) {
+                    _done = true;
+                    return false;
+                }
+                if constexpr (enforce_set) { // Remove duplicates, if this is not ensured somewhere else.
+                    std::sort(_next_workset.begin(), _next_workset.end());
+                    _next_workset.erase(std::unique(_next_workset.begin(), _next_workset.end()), _next_workset.end());
+                }
+                std::swap(_workset, _next_workset);
+            }
+
+            auto current = _workset.back();
+            _workset.pop_back();
+
+            if (!static_cast<Derived*>(this)->template step_with<change_is_bottom>(std::move(current))) {
+                _done = true;
+                return false;
+            }
+            return true;
+        }
+        void finalize() {
+            _rounds = 0; // Reset _round count and run again, this time changes gives -inf weight.
+            while (!done()) {
+                step<true>();
+            }
+        }
+        [[nodiscard]] bool done() const {
+            return _done || (_rounds >= _round_limit && _workset.empty()); // Finish the last round.
+        }
+        void run() {
+            while(!done()) {
+                step();
+            }
+            finalize();
+        }
+    protected:
+        template<typename... Args>
+        auto emplace(Args&&... args){
+            return _next_workset.emplace_back(std::forward<Args>(args)...);
+        }
+        void set_round_limit(size_t new_round_limit) { _round_limit = new_round_limit; }
+    };
+}
+
+#endif //PDAAAL_WORKSET_H
-- 
2.43.0


From 225e7766c2826d4b6937c36f8e506c25fa2a119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:05 +0000
Subject: [PATCH 32/36] fix: fixed-point pre* iterated over a vector that it
 extends

---
 src/include/pdaaal/internal/PdaSaturation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3c113f3..38acdbd 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -882,7 +882,8 @@ namespace pdaaal::internal {
                                 auto w_temp = solverW::add(rule._weight, w);
                                 // (line 10)
                                 _delta_prime[t._to].emplace(pre_state, rule_id);
-                                for (const auto& [rel_to, rel_label] : _rel[t._to]) { // (line 11-12)
+                                for (size_t i = 0; i < _rel[t._to].size(); ++i) { // (line 11-12)
+                                    auto [rel_to, rel_label] = _rel[t._to][i]; // Copy and index, since update_edge may add to _rel[t._to].
                                     if (labels.contains(rel_label)) {
                                         assert(_automaton.get_edge(t._to, rel_label, rel_to) != nullptr);
                                         update_edge<change_is_bottom>(pre_state, rel_label, rel_to,
-- 
2.43.0


From c8663c754cdd6383aa47268e35741d065a964f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:44 +0000
Subject: [PATCH 33/36] fix: pre* skipped rules of negative weight

---
 src/include/pdaaal/internal/PdaSaturation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 38acdbd..11f6970 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -139,7 +139,7 @@ namespace pdaaal::internal {
             if(_popped[state]) return;
             for (auto pre_state : _pda_states[state]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                auto lb = std::lower_bound(rules.begin(), rules.end(), state, [](const auto& r, size_t to){ return r.first._to < to; });
                 while (lb != rules.end() && lb->first._to == state) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -269,7 +269,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = std::lower_bound(rules.begin(), rules.end(), t._from, [](const auto& r, size_t to){ return r.first._to < to; });
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -803,7 +803,7 @@ namespace pdaaal::internal {
                 _added_pop[state] = true;
                 for (auto pre_state : _pda_states[state]._pre_states) {
                     const auto &rules = _pda_states[pre_state]._rules;
-                    auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                    auto lb = std::lower_bound(rules.begin(), rules.end(), state, [](const auto& r, size_t to){ return r.first._to < to; });
                     while (lb != rules.end() && lb->first._to == state) {
                         const auto& [rule, labels] = *lb;
                         size_t rule_id = lb - rules.begin();
@@ -855,7 +855,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return true; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto &rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = std::lower_bound(rules.begin(), rules.end(), t._from, [](const auto& r, size_t to){ return r.first._to < to; });
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto &[rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
-- 
2.43.0


From de5bb0c2c895cb2ccf10ec2498df255c90937957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:12 +0000
Subject: [PATCH 34/36] fix: shortest search missed targets heavier than every
 queue weight

The early-termination test compares the accepting weight with the queue weight.
When the saturation ends before the queue weight gets there, the accepting path
is in the product, but the answer was "not reachable".
---
 src/include/pdaaal/Solver.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 39705d0..1f54830 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -105,7 +105,7 @@ namespace pdaaal {
                         auto w = internal::solver_weight<W,trace_type>::add(latest_poststar_queue_weight, latest_prestar_queue_weight);*/
                         return instance.template add_initial_edge<trace_type>(from, label, to, trace, /*std::move(w)*/ et_param);
                     }
-                );
+                ) || instance.product_automaton().has_accepting_state(); // One side is saturated, so any accepting path is in the product.
                 return false;
             }
             else
@@ -188,7 +188,8 @@ namespace pdaaal {
                         else
                             return instance.add_edge_product(from, label, to, trace);
 
-                   });
+                   }) ||
+                   instance.product_automaton().has_accepting_state(); // Saturated, so any accepting path is in the product.
             }
 
         template <Trace_Type trace_type, typename W, bool ET=false>
@@ -221,7 +222,7 @@ namespace pdaaal {
                     [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                     });
-                return saturation.run();
+                return saturation.run() || instance.product_automaton().has_accepting_state(); // Saturated, so any accepting path is in the product.
             } else if constexpr (trace_type == Trace_Type::Any ||
                                  trace_type == Trace_Type::None) { // TODO: Implement faster no-trace option.
                 internal::PostStarSaturation<W,true> saturation(instance.automaton(),
-- 
2.43.0


From 4849ee1ed2cd1dc6be5ce8c5c483b1c7835eea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:12 +0000
Subject: [PATCH 35/36] fix: post_star_accepts_no_ET ignored the trace type,
 pre_star_accepts_no_ET did not compile

---
 src/include/pdaaal/Solver.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 1f54830..ee3b096 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -249,13 +249,14 @@ namespace pdaaal {
         template <typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            pre_star<W,false>(instance.automaton());
+            pre_star<Trace_Type::Any,W,false>(instance.automaton());
             return instance.template initialize_product<false,false>();
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
         static bool post_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            post_star(instance.automaton());
-            return instance.template initialize_product<false,false>();
+            post_star<trace_type>(instance.automaton());
+            instance.template initialize_product<false,false,trace_type>();
+            return instance.product_automaton().has_accepting_state();
         }
 
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W, TraceInfoType trace_info_type>
-- 
2.43.0


From eef4439869fc5eda121f61456268beff2f3a070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:12 +0000
Subject: [PATCH 36/36] fix: rule trace of post* could return a push with the
 weight of another rule

---
 src/include/pdaaal/internal/PdaSaturation.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 11f6970..4c03599 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1153,7 +1153,9 @@ namespace pdaaal::internal {
                             trace_label = get_trace_label<avoid_loop>(from2, label2, to2);
                             assert(!trace_label.is_null());
                             _path.emplace(trace_label._state, trace_label._label);
-                            break;
+                            // Several rules can push this label into this state. Return the one that made this edge.
+                            return rule_t(trace_label._state, trace_label._label,
+                                          _automaton.pda().states()[trace_label._state]._rules[trace_label._rule_id].first);
                     }
                     assert(from == rule._to);
                     return rule_t(trace_label._state, trace_label._label, rule);
-- 
2.43.0

