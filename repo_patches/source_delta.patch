From 5d55820ed46738c9cc609f7275b0657bfce1c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 1/9] fix: do not flip the polarity bit of an automaton
 saturated at state 0

With number_of_states equal to 1 the highest state is 0, so recognition of a
matching clause leaves the automaton at 0. The bit was flipped nevertheless and
the polarity matrix went out of step with the automaton states.
---
 lib/src/tsetlini_algo_bitwise.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 1a1c0a6..9f761e2 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -626,13 +626,12 @@ void block2(
                 if (ta_state_pos_j[fidx] < number_of_states - 1)
                 {
                     ta_state_pos_j[fidx]++;
-                }
 
-                if (ta_state_pos_j[fidx] == 0)
-                {
-                    ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    if (ta_state_pos_j[fidx] == 0)
+                    {
+                        ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    }
                 }
-
             }
             if (cond2_neg)
             {
-- 
2.43.0


From be4f47f9c8036c4ca0152767bc04a6a7f4614bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 2/9] fix: limit a negative normal draw to zero before
 converting to unsigned in binomial

---
 lib/src/box_muller_approx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/box_muller_approx.cpp b/lib/src/box_muller_approx.cpp
index 8bdf71f..9c18aed 100644
--- a/lib/src/box_muller_approx.cpp
+++ b/lib/src/box_muller_approx.cpp
@@ -98,9 +98,10 @@ static float normal(float mean, float variance, PRNG & irng)
 template<typename PRNG>
 unsigned int binomial(unsigned int n, float p, PRNG & irng)
 {
-    unsigned int const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+    float const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
 
-    return std::clamp(rv, 0u, n);
+    // values below zero (or NaN) have to be limited before conversion to unsigned
+    return rv > 0.f ? std::min(static_cast<unsigned int>(rv), n) : 0u;
 }
 
 
-- 
2.43.0


From db9634eff1b4a2e42aa9a1638b6b917505d59e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 3/9] fix: reset clause weights when a fitted model is fitted
 again

---
 lib/src/ta_state.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/ta_state.cpp b/lib/src/ta_state.cpp
index 6ad869c..40076b3 100644
--- a/lib/src/ta_state.cpp
+++ b/lib/src/ta_state.cpp
@@ -65,6 +65,8 @@ TAState::initialize(
 
     std::visit(state_gen, state.matrix);
 
+    state.weights.clear();
+
     if (weighted == true)
     {
         state.weights.resize(value_of(number_of_clause_outputs));
@@ -112,6 +114,8 @@ TAStateWithPolarity::initialize(
 
     std::visit(state_gen, state.matrix);
 
+    state.weights.clear();
+
     if (weighted == true)
     {
         state.weights.resize(value_of(number_of_clause_outputs));
-- 
2.43.0


From 65681e30d65a60e3ce99e3e7274f44c8791af5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 4/9] fix: validate the arguments of evaluate like those of
 predict

---
 lib/src/tsetlini.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 37fb452..f4cd439 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -396,7 +396,17 @@ evaluate_classifier_impl(
     std::vector<SampleType> const & X,
     label_vector_type const & y)
 {
-    // let it crash - no state validation for now
+    if (auto sm = check_for_predict(state, X);
+        sm.first != StatusCode::S_OK)
+    {
+        return Either<status_message_t, real_type>::leftOf(std::move(sm));
+    }
+    else if (y.size() != X.size())
+    {
+        return Either<status_message_t, real_type>::leftOf({StatusCode::S_VALUE_ERROR,
+            "X and y must have the same lengths, got " + std::to_string(X.size()) +
+            " and " + std::to_string(y.size())});
+    }
 
     auto const number_of_examples = X.size();
 
-- 
2.43.0


From 924e5f8d6613a740c72916d1c8eab8d61e94a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 5/9] fix: find set padding bits in bit vectors with spare
 blocks

---
 lib/src/tsetlini.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index f4cd439..2d2756a 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -70,17 +70,20 @@ bool check_clear_padding(bit_vector<T> const & vec)
 {
     using block_type = typename bit_vector<T>::block_type;
 
-    auto const n_blocks = vec.capacity_blocks();
-    auto const padding_nbits = n_blocks * vec.block_bits - vec.size();
+    /* a vector may be given more blocks than its bits take */
+    auto const n_content = vec.content_blocks();
 
-    if (padding_nbits != 0)
+    if (auto const tail_bits = vec.tail_bits(); tail_bits != 0)
     {
-        auto const mask = block_type(-1) << (vec.block_bits - padding_nbits);
+        auto const mask = block_type(-1) << tail_bits;
 
-        return (vec.m_vector.back() & mask) == 0;
+        if ((vec.m_vector[n_content - 1] & mask) != 0)
+        {
+            return false;
+        }
     }
 
-    return true;
+    return std::all_of(vec.m_vector.cbegin() + n_content, vec.m_vector.cend(), [](auto block){ return block == 0; });
 }
 
 
-- 
2.43.0


From 0814026a1795c88df0f469718fdfbf5a01d49510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 6/9] fix: reject fitting a classifier with a single label
 instead of dividing by zero

---
 lib/src/tsetlini.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 2d2756a..9d68742 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -775,6 +775,11 @@ fit_classifier_impl(
         return sm;
     }
 
+    if (number_of_labels < 2)
+    {
+        return {StatusCode::S_VALUE_ERROR, "At least two labels are required to train a classifier"};
+    }
+
     // Let it crash for now
 //    validate_params();
 
-- 
2.43.0


From e1118cc02ed51d607287f1af89372a7a68487f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 7/9] fix: grant feedback by the votes also for thresholds of
 2^30 and more

---
 lib/src/tsetlini_algo_classic.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 8b1563b..d8b7728 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -685,9 +685,11 @@ void calculate_classifier_feedback_to_clauses(
     threshold_t const threshold,
     TFRNG & fgen)
 {
-    const auto THR2_inv = (ONE / (value_of(threshold) * 2));
-    const auto THR_pos = THR2_inv * (value_of(threshold) - target_label_votes);
-    const auto THR_neg = THR2_inv * (value_of(threshold) + opposite_label_votes);
+    // 64-bit, so that neither 2T nor T - v overflows for thresholds of 2^30 and more
+    const std::int64_t T = value_of(threshold);
+    const auto THR2_inv = (ONE / (T * 2));
+    const auto THR_pos = THR2_inv * (T - target_label_votes);
+    const auto THR_neg = THR2_inv * (T + opposite_label_votes);
 
     std::fill(feedback_to_clauses.begin(), feedback_to_clauses.end(), No_Feedback);
 
-- 
2.43.0


From 2b4c847fc8edfbf311883f9b52d26d9dcf27f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:10 +0000
Subject: [PATCH 8/9] fix: leave named arguments passed as variables as they
 were

---
 lib/include/arg_extract.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/include/arg_extract.hpp b/lib/include/arg_extract.hpp
index 54d7bb2..7f21a68 100644
--- a/lib/include/arg_extract.hpp
+++ b/lib/include/arg_extract.hpp
@@ -13,7 +13,7 @@ namespace Tsetlini::arg
 
 
 template<typename T, typename ...Args>
-auto extract(Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<T, std::remove_reference_t<Args>>...>, T &&>
+auto extract(Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<T, std::remove_reference_t<Args>>...>, T const &>
 {
     return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
 }
@@ -29,7 +29,7 @@ auto extract(Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_sam
 
 
 template<typename T, typename ...Args>
-auto extract_or(T &&, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T &&>
+auto extract_or(T &&, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T const &>
 {
     return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
 }
@@ -43,7 +43,7 @@ auto extract_or(T &&, Args && ...args) -> std::enable_if_t<std::disjunction_v<st
 
 
 template<typename T, typename ...Args>
-auto extract_or(T const &, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T &&>
+auto extract_or(T const &, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T const &>
 {
     return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
 }
@@ -86,7 +86,9 @@ auto maybe_extract(Args && ...) -> std::enable_if_t<not std::disjunction_v<std::
 template<typename T, typename ...Args>
 auto maybe_extract(Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<T, std::remove_reference_t<Args>>...>, std::optional<T>>
 {
-    return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
+    T const & value = std::get<T &&>(std::forward_as_tuple(std::move(args)...));
+
+    return value;
 }
 
 template<typename T, typename ...Args>
-- 
2.43.0


From 9056a6b07f56424d2dc0f651e2559aa4cb5db772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:10 +0000
Subject: [PATCH 9/9] fix: reject JSON parameters of a wrong type or out of
 range

---
 lib/src/tsetlini_params.cpp | 68 +++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 8bda3a9..6e291fb 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -14,6 +14,8 @@
 #include <random>
 #include <limits>
 #include <cmath>
+#include <cstdint>
+#include <type_traits>
 
 
 using namespace std::string_literals;
@@ -124,12 +126,58 @@ assert_json_dictionary(json const & js)
 }
 
 
+/*
+ * Tell if json value is a number which type T can represent
+ */
+template<typename T>
+static
+bool is_number_of(json const & value)
+{
+    using limits = std::numeric_limits<T>;
+
+    if (value.is_boolean())
+    {
+        return true;
+    }
+    else if constexpr (std::is_floating_point_v<T>)
+    {
+        return value.is_number() and std::isfinite(value.get<T>());
+    }
+    else if (value.is_number_unsigned())
+    {
+        return value.get<std::uint64_t>() <= static_cast<std::uint64_t>(limits::max());
+    }
+    else if (value.is_number_integer())
+    {
+        auto const num = value.get<std::int64_t>();
+
+        return static_cast<std::int64_t>(limits::min()) <= num and num <= static_cast<std::int64_t>(limits::max());
+    }
+    else if (value.is_number_float())
+    {
+        auto const num = value.get<double>();
+
+        return limits::min() <= num and num <= limits::max() and num == std::trunc(num);
+    }
+    else
+    {
+        return false;
+    }
+}
+
+
 static
 Either<status_message_t, params_t>
 json_to_params(json const & js)
 {
     params_t rv;
 
+    auto const bad_value = [](std::string const & key)
+    {
+        return Either<status_message_t, params_t>::leftOf({S_BAD_JSON,
+            "Param '" + key + "' got value of unsupported type or out of range\n"});
+    };
+
     for (auto const & kv : js.items())
     {
         auto const key = kv.key();
@@ -146,12 +194,20 @@ json_to_params(json const & js)
             (key == "max_weight")
             )
         {
+            if (not is_number_of<int>(value))
+            {
+                return bad_value(key);
+            }
             rv[key] = value.get<int>();
         }
         else if (key == "random_state")
         {
             if (!value.is_null())
             {
+                if (not is_number_of<seed_type>(value))
+                {
+                    return bad_value(key);
+                }
                 rv[key] = value.get<seed_type>();
             }
         }
@@ -159,6 +215,10 @@ json_to_params(json const & js)
             (key == "s") or
             (key == "loss_fn_C1"))
         {
+            if (not is_number_of<real_type>(value))
+            {
+                return bad_value(key);
+            }
             rv[key] = value.get<real_type>();
         }
         else if (
@@ -166,12 +226,20 @@ json_to_params(json const & js)
             (key == "box_muller") or
             (key == "weighted"))
         {
+            if (not value.is_boolean())
+            {
+                return bad_value(key);
+            }
             rv[key] = value.get<bool>();
         }
         else if (
             (key == "counting_type") or
             (key == "loss_fn"))
         {
+            if (not value.is_string())
+            {
+                return bad_value(key);
+            }
             rv[key] = value.get<std::string>();
         }
         else
-- 
2.43.0

