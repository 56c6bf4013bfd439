From 280bb0a876f32ec82a45b32af6c0585c6c40b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:48 +0000
Subject: [PATCH 01/23] fix: forward-mode erf must scale its derivative by the
 incoming adjoint

---
 include/fastad_bits/forward/core/forward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 1e9aa5a..68de289 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -134,7 +134,7 @@ FORWARD_UNARY_FUNC(sqrt, tmp, x.get_adjoint() / (2 * tmp),
         auto tmp = std::sqrt(x.get_value());)
 // ad::erf(core::ADForward)
 FORWARD_UNARY_FUNC(erf, std::erf(x.get_value()), 
-        two_over_sqrt_pi * std::exp(-t_sq), 
+        two_over_sqrt_pi * std::exp(-t_sq) * x.get_adjoint(), 
         static constexpr double two_over_sqrt_pi =
                 1.1283791670955126;
         auto t_sq = x.get_value() * x.get_value();)
-- 
2.43.0


From 441ef57e18f2cb1361921bde6e213969a8194ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:48 +0000
Subject: [PATCH 02/23] fix: if_else must store its own value so that it can be
 a subexpression

---
 include/fastad_bits/reverse/core/if_else.hpp | 24 +++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index beade43..1956609 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -75,10 +75,14 @@ public:
         assert(if_expr.cols() == else_expr.cols());
     }
 
-    const auto& feval()
+    const var_t& feval()
     {
-        return cond_expr_.feval() ? 
-                if_expr_.feval() : else_expr_.feval();
+        if (cond_expr_.feval()) {
+            this->get() = if_expr_.feval();
+        } else {
+            this->get() = else_expr_.feval();
+        }
+        return this->get();
     }
 
     template <class T>
@@ -95,18 +99,26 @@ public:
     {
         begin = cond_expr_.bind_cache(begin);
         begin = if_expr_.bind_cache(begin);
-        return else_expr_.bind_cache(begin);
+        begin = else_expr_.bind_cache(begin);
+
+        // only need to bind value
+        auto adj = begin.adj;
+        begin.adj = nullptr;
+        begin = value_adj_view_t::bind(begin);
+        begin.adj = adj;
+        return begin;
     }
 
     util::SizePack bind_cache_size() const 
     { 
-        return cond_expr_.bind_cache_size() +
+        return single_bind_cache_size() +
+                cond_expr_.bind_cache_size() +
                 if_expr_.bind_cache_size() + 
                 else_expr_.bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     cond_t cond_expr_;
-- 
2.43.0


From b7daeda733940fc3e77b3c179bbec0cd06635f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:48 +0000
Subject: [PATCH 03/23] fix: prod of an expression must keep its adjoint cache
 when assigned to a placeholder

---
 include/fastad_bits/reverse/core/prod.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 12621d1..29e5fa8 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -230,12 +230,13 @@ public:
     util::SizePack bind_cache_size() const 
     { 
         return expr_.bind_cache_size() + 
-                single_bind_cache_size();
+                single_bind_cache_size() +
+                util::SizePack(0, expr_.size());
     }
 
     util::SizePack single_bind_cache_size() const
     { 
-        return {this->size(), expr_.size()}; 
+        return {this->size(), 0}; 
     }
 
 private:
-- 
2.43.0


From e7ae814f28edf14cbebc9907df94c02356406d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:48 +0000
Subject: [PATCH 04/23] fix: op= node must keep its cache when assigned to a
 placeholder

---
 include/fastad_bits/reverse/core/eq.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 5503a89..7d76297 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -287,14 +287,13 @@ public:
 
     util::SizePack bind_cache_size() const 
     {
-        return single_bind_cache_size() + 
+        return util::SizePack(cache_.size(), cache_.size()) + 
                 expr_.bind_cache_size(); 
     }
 
+    // the node itself only views the variable
     util::SizePack single_bind_cache_size() const
-    {
-        return {cache_.size(), cache_.size()}; 
-    }
+    { return {0,0}; }
 
 private:
     value_adj_view_t cache_;
-- 
2.43.0


From ab925ea9d70d595959c5bce347b77ca99d7eca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 05/23] fix: copies of a bound expression must view their own
 cache

---
 include/fastad_bits/reverse/core/bind.hpp | 27 ++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 9ea7ca6..f4374ae 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <new>
+#include <utility>
 #include <vector>
 #include <fastad_bits/reverse/core/expr_base.hpp>
 #include <fastad_bits/util/type_traits.hpp>
@@ -29,12 +31,35 @@ struct ExprBind
         auto size_pack = expr_.bind_cache_size();
         val_cache_.resize(size_pack(0));
         adj_cache_.resize(size_pack(1));
-        expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
+        rebind();
+    }
+
+    // the copied expression must view the copied cache
+    ExprBind(const ExprBind& other)
+        : expr_{other.expr_}
+        , val_cache_(other.val_cache_)
+        , adj_cache_(other.adj_cache_)
+    { rebind(); }
+
+    ExprBind& operator=(const ExprBind& other)
+    {
+        if (this == &other) return *this;
+        // assigning expressions would write through their views
+        expr_t expr{other.expr_};
+        expr_.~expr_t();
+        new (&expr_) expr_t(std::move(expr));
+        val_cache_ = other.val_cache_;
+        adj_cache_ = other.adj_cache_;
+        rebind();
+        return *this;
     }
     
     expr_t& get() { return expr_; }
 
 private:
+    void rebind()
+    { expr_.bind_cache({val_cache_.data(), adj_cache_.data()}); }
+
     expr_t expr_; 
     Eigen::Matrix<value_t, Eigen::Dynamic, 1> val_cache_;
     Eigen::Matrix<value_t, Eigen::Dynamic, 1> adj_cache_;
-- 
2.43.0


From a77c92f5df3579d88bd8ba7d5d161b958e797ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 06/23] fix: transpose of a constant must be a constant matrix

---
 include/fastad_bits/reverse/core/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/transpose.hpp b/include/fastad_bits/reverse/core/transpose.hpp
index 47d4839..be59583 100644
--- a/include/fastad_bits/reverse/core/transpose.hpp
+++ b/include/fastad_bits/reverse/core/transpose.hpp
@@ -70,7 +70,7 @@ inline auto transpose(const T &x) {
     // optimization for when expression is constant
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
-        using var_t = util::constant_var_t<value_t, ad::scl>;
+        using var_t = util::constant_var_t<value_t, ad::mat>;
         var_t out = expr.feval().transpose();
         return ad::constant(out);
     } else {
-- 
2.43.0


From ff5918f11c7c97cbb3ab0956d1fe3b1fbbba7647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 07/23] fix: cauchy log-pdf must apply the seed once to
 location and scale adjoints

---
 include/fastad_bits/reverse/stat/cauchy.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 2e89726..85983f6 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -228,8 +228,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        value_t dx0 = -dx.sum();
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
         
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -297,8 +297,8 @@ public:
 
         auto diff = x - x0;
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        auto dgamma = (-seed) * (dx * diff + 1) / gamma;
+        value_t dx0 = -dx.sum();
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -367,8 +367,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        auto dx0 = (-seed) * dx;
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        auto dx0 = -dx;
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -436,8 +436,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        auto dx0 = (-seed) * dx;
-        auto dgamma = (-seed/gamma) * ((dx * diff) + 1);
+        auto dx0 = -dx;
+        auto dgamma = (-1./gamma) * ((dx * diff) + seed);
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-- 
2.43.0


From ef7e8df527a93f140cde9cd2af8156711bf9b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 08/23] fix: uniform log-pdf must recheck bounds on constant x
 when a bound is variable

---
 include/fastad_bits/reverse/stat/uniform.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index fb4ea17..b6dd90b 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -306,7 +306,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<max_t>) {
             update_x_cache();
         }
     }
@@ -322,7 +323,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<max_t>) {
             update_x_cache();
         }
 
@@ -399,7 +401,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<min_t>) {
             update_x_cache();
         }
     }
@@ -415,7 +418,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<min_t>) {
             update_x_cache();
         }
 
-- 
2.43.0


From e38d97e708cda2249225b7d1500a658434883669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 09/23] fix: wishart log-pdf of constant x must follow changes
 of a variable scale matrix

---
 include/fastad_bits/reverse/stat/wishart.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 5d64c5a..37abaef 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -166,7 +166,9 @@ public:
         if constexpr (!util::is_constant_v<v_t>) {
             update_v_cache();
         }
-        if constexpr (!util::is_constant_v<x_t>) {
+        // x cache also depends on V
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<v_t>) {
             update_x_cache();
         }
 
-- 
2.43.0


From 575fc75c124ad2dbbe26d97dcf4a754f05bef06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 10/23] fix: owning constants need size() to be used as vector
 operands of log-pdfs

---
 include/fastad_bits/reverse/core/constant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fastad_bits/reverse/core/constant.hpp b/include/fastad_bits/reverse/core/constant.hpp
index 0f2108e..54722d2 100644
--- a/include/fastad_bits/reverse/core/constant.hpp
+++ b/include/fastad_bits/reverse/core/constant.hpp
@@ -130,6 +130,7 @@ public:
         }
     }
 
+    size_t size() const { return this->rows() * this->cols(); }
     size_t rows() const { 
         if constexpr (util::is_scl_v<this_t>) {
             return 1;
-- 
2.43.0


From 8273846ce4a8c298532c5aa7308e404055d57a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 11/23] fix: binary operators must accept a left constant of a
 different value type

---
 include/fastad_bits/reverse/core/binary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index a738294..ffb7f4c 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -37,7 +37,7 @@ template <class Binary
         , class LeftExprType
         , class RightExprType>
 struct BinaryNode:
-    ValueAdjView<typename util::expr_traits<LeftExprType>::value_t,
+    ValueAdjView<util::common_value_t<LeftExprType, RightExprType>,
                  util::max_shape_t<typename util::shape_traits<LeftExprType>::shape_t,
                                    typename util::shape_traits<RightExprType>::shape_t>
                 >,
-- 
2.43.0


From 1a2f7ec5443a3ce44a213f568d5abfc6b2d67d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 12/23] fix: evaluate_adj with an array seed must accept a
 bound expression

---
 include/fastad_bits/reverse/core/eval.hpp | 310 +++++++++++-----------
 1 file changed, 155 insertions(+), 155 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 799dbac..3ef4a0a 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -1,155 +1,155 @@
-#pragma once
-#include <cstdlib>
-#include <type_traits>
-#include <tuple>
-#include <fastad_bits/reverse/core/expr_base.hpp>
-#include <fastad_bits/reverse/core/bind.hpp>
-#include <fastad_bits/util/value.hpp>
-
-namespace ad {
-
-/*
- * Evaluates expression in the forward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward evaluate
- * @return the expression value
- */
-
-template <class ExprType>
-inline auto evaluate(ExprType&& expr)
-{
-    return expr.feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>& expr)
-{
-    return expr.get().feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>&& expr)
-{
-    return expr.get().feval();
-}
-
-/* 
- * Evaluates expression in the backward direction of reverse-mode AD.
- * Default parameter should fail exactly when expression is multi-dimensional.
- *
- * @tparam ExprType expression type
- * @param expr  expression to backward evaluate
- */
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-/* 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-/** 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * Overload for ExprBind helper class.
- *
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-} // namespace ad
+#pragma once
+#include <cstdlib>
+#include <type_traits>
+#include <tuple>
+#include <fastad_bits/reverse/core/expr_base.hpp>
+#include <fastad_bits/reverse/core/bind.hpp>
+#include <fastad_bits/util/value.hpp>
+
+namespace ad {
+
+/*
+ * Evaluates expression in the forward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward evaluate
+ * @return the expression value
+ */
+
+template <class ExprType>
+inline auto evaluate(ExprType&& expr)
+{
+    return expr.feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>& expr)
+{
+    return expr.get().feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>&& expr)
+{
+    return expr.get().feval();
+}
+
+/* 
+ * Evaluates expression in the backward direction of reverse-mode AD.
+ * Default parameter should fail exactly when expression is multi-dimensional.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to backward evaluate
+ */
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+/* 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+/** 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * Overload for ExprBind helper class.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+} // namespace ad
-- 
2.43.0


From f75d935a75504f102c5ffdb56c841adf2089a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 13/23] fix: sigmoid backward must compile for scalars and not
 overflow to NaN

---
 include/fastad_bits/reverse/core/unary.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index 653124c..01144e9 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -273,8 +273,12 @@ UNARY_STRUCT(Erf,
 UNARY_STRUCT(Sigmoid, 
              USING_STD_AD_EIGEN(exp);
              return 1/(1+exp(-x));, 
-             static_cast<void>(x); 
-             return seed * exp(-x)/((exp(-x)+1)*(exp(-x)+1)););
+             static_cast<void>(f); 
+             USING_STD_AD_EIGEN(exp);
+             using std::abs;
+             using Eigen::abs;
+             auto tmp = exp(-abs(x));
+             return seed * tmp / ((1. + tmp) * (1. + tmp)););
 
 // sinh
 UNARY_STRUCT(Sinh, 
-- 
2.43.0


From 1f8ec3de395b370942fea2704f51bf43f1cb1671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 14/23] fix: empty product of scalar constants is one, as for
 non-constants

---
 include/fastad_bits/reverse/core/prod.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 29e5fa8..f093c83 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -267,7 +267,10 @@ inline auto prod(Iter begin, Iter end, Lmda f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) {
+            if constexpr (std::is_same_v<shape_t, ad::scl>) return ad::constant(var_t(1));
+            else return ad::constant(var_t(0));
+        }
         var_t prod = f(*begin).feval();     // value_t or Eigen::Matrix
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
-- 
2.43.0


From 964181fac4879bc3712bcaa4e590d23b47821f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:44 +0000
Subject: [PATCH 15/23] fix: autodiff of a non-scalar expression must return a
 value, not a view

---
 include/fastad_bits/reverse/core/eval.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 3ef4a0a..f58944e 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -30,7 +30,12 @@ inline auto evaluate(core::ExprBind<ExprType>& expr)
 template <class ExprType>
 inline auto evaluate(core::ExprBind<ExprType>&& expr)
 {
-    return expr.get().feval();
+    // the returned value must outlive the cache owned by expr
+    if constexpr (util::is_scl_v<ExprType>) {
+        return expr.get().feval();
+    } else {
+        return expr.get().feval().eval();
+    }
 }
 
 /* 
@@ -98,7 +103,9 @@ template <class ExprType
 inline auto autodiff(ExprType&& expr,
                      const Eigen::ArrayBase<T>& seed)
 {
-    auto t = evaluate(expr);
+    // copy the value, since expr may only view storage which is overwritten
+    // during backward-evaluation or which does not outlive this call
+    auto t = evaluate(expr).eval();
     evaluate_adj(expr, seed);
     return t;
 }
-- 
2.43.0


From dcf97c7fcdfdf9a9a9931c7373f6565c1420f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:05 +0000
Subject: [PATCH 16/23] fix: op= node must own its value, which siblings may
 need after the variable is restored

---
 include/fastad_bits/reverse/core/eq.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 7d76297..fb2485a 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -279,21 +279,26 @@ public:
      */
     ptr_pack_t bind_cache(ptr_pack_t begin)
     {
-        value_adj_view_t::bind({var_view_.data(), var_view_.data_adj()});
         begin = expr_.bind_cache(begin);
         begin = cache_.bind(begin);
+
+        // The node owns its value rather than viewing the variable:
+        // back-evaluating this node restores the variable,
+        // but other nodes may still need the value of this node.
+        auto pack = value_adj_view_t::bind({begin.val, var_view_.data_adj()});
+        begin.val = pack.val;
         return begin;
     }
 
     util::SizePack bind_cache_size() const 
     {
-        return util::SizePack(cache_.size(), cache_.size()) + 
+        return single_bind_cache_size() + 
+                util::SizePack(cache_.size(), cache_.size()) + 
                 expr_.bind_cache_size(); 
     }
 
-    // the node itself only views the variable
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     value_adj_view_t cache_;
-- 
2.43.0


From 1d6d37c9092418892b7d5f23ee40f55e2bdd8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:32 +0000
Subject: [PATCH 17/23] fix: move-assigning a non-scalar variable must keep the
 storage expressions view

---
 include/fastad_bits/reverse/core/var.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/core/var.hpp b/include/fastad_bits/reverse/core/var.hpp
index 9e152b2..b68fda8 100644
--- a/include/fastad_bits/reverse/core/var.hpp
+++ b/include/fastad_bits/reverse/core/var.hpp
@@ -138,8 +138,9 @@ public:
         if (this == &v) return *this;
         assert(v.rows() == this->rows());
         assert(v.cols() == this->cols());
-        val_ = std::move(v.val_);
-        adj_ = std::move(v.adj_);
+        // keep storage in place, since expressions may already view it
+        val_ = v.val_;
+        adj_ = v.adj_;
         rebind();
         return *this;
     }
@@ -203,8 +204,9 @@ public:
         if (this == &v) return *this;
         assert(v.rows() == this->rows());
         assert(v.cols() == this->cols());
-        val_ = std::move(v.val_);
-        adj_ = std::move(v.adj_);
+        // keep storage in place, since expressions may already view it
+        val_ = v.val_;
+        adj_ = v.adj_;
         rebind();
         return *this;
     }
-- 
2.43.0


From 7d16b51f26a5b7270d05d14d109650defc147e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:23 +0000
Subject: [PATCH 18/23] fix: sinh, cosh and tanh must compile for scalar
 expressions

---
 include/fastad_bits/reverse/core/unary.hpp | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index 01144e9..9fc70c0 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -282,21 +282,28 @@ UNARY_STRUCT(Sigmoid,
 
 // sinh
 UNARY_STRUCT(Sinh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::sinh(x);, 
+             using std::sinh;
+             using Eigen::sinh;
+             return sinh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::cosh(x)););
+             using std::cosh;
+             using Eigen::cosh;
+             return seed *(cosh(x)););
 // cosh
 UNARY_STRUCT(Cosh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::cosh(x);, 
+             using std::cosh;
+             using Eigen::cosh;
+             return cosh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::sinh(x)););			 
+             using std::sinh;
+             using Eigen::sinh;
+             return seed *(sinh(x)););			 
 // tanh
 UNARY_STRUCT(Tanh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::tanh(x);, 
-             static_cast<void>(f); 
+             using std::tanh;
+             using Eigen::tanh;
+             return tanh(x);, 
+             static_cast<void>(x); 
              return seed *(1-f*f););
 			 
 // operator- (IMPORTANT TO DECLARE IN core)
-- 
2.43.0


From 58dfd3e162bbfafd37028373727a14fd0f5a8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 19/23] fix: restore the line endings of eval.hpp (autodiff
 repair touched every line)

---
 include/fastad_bits/reverse/core/eval.hpp | 324 +++++++++++-----------
 1 file changed, 162 insertions(+), 162 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index f58944e..797d8d6 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -1,162 +1,162 @@
-#pragma once
-#include <cstdlib>
-#include <type_traits>
-#include <tuple>
-#include <fastad_bits/reverse/core/expr_base.hpp>
-#include <fastad_bits/reverse/core/bind.hpp>
-#include <fastad_bits/util/value.hpp>
-
-namespace ad {
-
-/*
- * Evaluates expression in the forward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward evaluate
- * @return the expression value
- */
-
-template <class ExprType>
-inline auto evaluate(ExprType&& expr)
-{
-    return expr.feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>& expr)
-{
-    return expr.get().feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>&& expr)
-{
-    // the returned value must outlive the cache owned by expr
-    if constexpr (util::is_scl_v<ExprType>) {
-        return expr.get().feval();
-    } else {
-        return expr.get().feval().eval();
-    }
-}
-
-/* 
- * Evaluates expression in the backward direction of reverse-mode AD.
- * Default parameter should fail exactly when expression is multi-dimensional.
- *
- * @tparam ExprType expression type
- * @param expr  expression to backward evaluate
- */
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-/* 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    // copy the value, since expr may only view storage which is overwritten
-    // during backward-evaluation or which does not outlive this call
-    auto t = evaluate(expr).eval();
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-/** 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * Overload for ExprBind helper class.
- *
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-} // namespace ad
+#pragma once
+#include <cstdlib>
+#include <type_traits>
+#include <tuple>
+#include <fastad_bits/reverse/core/expr_base.hpp>
+#include <fastad_bits/reverse/core/bind.hpp>
+#include <fastad_bits/util/value.hpp>
+
+namespace ad {
+
+/*
+ * Evaluates expression in the forward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward evaluate
+ * @return the expression value
+ */
+
+template <class ExprType>
+inline auto evaluate(ExprType&& expr)
+{
+    return expr.feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>& expr)
+{
+    return expr.get().feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>&& expr)
+{
+    // the returned value must outlive the cache owned by expr
+    if constexpr (util::is_scl_v<ExprType>) {
+        return expr.get().feval();
+    } else {
+        return expr.get().feval().eval();
+    }
+}
+
+/* 
+ * Evaluates expression in the backward direction of reverse-mode AD.
+ * Default parameter should fail exactly when expression is multi-dimensional.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to backward evaluate
+ */
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+/* 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    // copy the value, since expr may only view storage which is overwritten
+    // during backward-evaluation or which does not outlive this call
+    auto t = evaluate(expr).eval();
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+/** 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * Overload for ExprBind helper class.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+} // namespace ad
-- 
2.43.0


From 97b59983e94362279bf9b641397b6c6f41437dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:18 +0000
Subject: [PATCH 20/23] fix: broadcasting a scalar over an empty vector or
 matrix must give an empty result

---
 include/fastad_bits/reverse/core/binary.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index ffb7f4c..353a611 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -77,8 +77,8 @@ public:
     BinaryNode(const left_t& expr_lhs, 
                const right_t& expr_rhs)
         : value_adj_view_t(nullptr, nullptr,
-                       std::max(expr_lhs.rows(), expr_rhs.rows()),
-                       std::max(expr_lhs.cols(), expr_rhs.cols()))
+                       util::is_scl_v<left_t> ? expr_rhs.rows() : expr_lhs.rows(),
+                       util::is_scl_v<left_t> ? expr_rhs.cols() : expr_lhs.cols())
         , expr_lhs_(expr_lhs)
         , expr_rhs_(expr_rhs)
     {
-- 
2.43.0


From 8e54cc9a347e55620391c55aadac294027c349ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 21/23] fix: log_det must not overflow or underflow when only
 the determinant does

---
 include/fastad_bits/reverse/core/log_det.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/fastad_bits/reverse/core/log_det.hpp b/include/fastad_bits/reverse/core/log_det.hpp
index ed1e1ec..d78b848 100644
--- a/include/fastad_bits/reverse/core/log_det.hpp
+++ b/include/fastad_bits/reverse/core/log_det.hpp
@@ -107,7 +107,8 @@ struct LogDetFullPivLU
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         lu_.compute(X);
-        return std::log(std::abs(lu_.determinant()));
+        // sum of logs, since the determinant itself may over- or underflow
+        return lu_.matrixLU().diagonal().array().abs().log().sum();
     }
 
     auto bmap() const 
@@ -139,7 +140,7 @@ struct LogDetLDLT
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         ldlt_.compute(X);
-        value_t logdet = std::log(std::abs(ldlt_.vectorD().prod()));
+        value_t logdet = ldlt_.vectorD().array().abs().log().sum();
         valid_ = (std::isfinite(logdet)) && (ldlt_.info() == Eigen::Success);
         return logdet;
     }
@@ -178,7 +179,7 @@ struct LogDetLLT
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         llt_.compute(X);
-        value_t logdet = std::log(std::abs(llt_.matrixL().determinant()));
+        value_t logdet = llt_.matrixLLT().diagonal().array().abs().log().sum();
         return 2. * logdet;
     }
 
@@ -206,7 +207,7 @@ private:
  * The default decomposition is Eigen::FullPivLU.
  * Currently, we support DetLDLT and DetLLT for some specialized matrices.
  * If x is a constant, the decomposition is ignored and 
- * will always just invoke member function determinant of the underlying Eigen object.
+ * will always be Eigen::FullPivLU.
  */
 template <template <class> class DecompType = LogDetFullPivLU
         , class T
@@ -223,7 +224,7 @@ inline auto log_det(const T& x)
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
         using var_t = util::constant_var_t<value_t, ad::scl>;
-        var_t out = std::log(std::abs(expr.feval().determinant()));
+        var_t out = LogDetFullPivLU<value_t>(expr.rows()).fmap(expr.feval());
         return ad::constant(out);
     } else {
         return core::LogDetNode<DecompType<value_t>, expr_t>(expr);
-- 
2.43.0


From a263e5b69b9dd7afeecb2d43f329e219344b9d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:42 +0000
Subject: [PATCH 22/23] fix: multivariate normal and wishart must not overflow
 with the determinant of a large matrix

---
 include/fastad_bits/reverse/stat/normal.hpp  | 4 ++--
 include/fastad_bits/reverse/stat/wishart.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 6ddc49d..5c2fd16 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -659,7 +659,7 @@ private:
         llt_.compute(sigma_.get());
         is_pos_def_ = (llt_.info() == Eigen::Success);
         if (is_pos_def_) {
-            log_det_ = std::log(llt_.matrixL().determinant());
+            log_det_ = llt_.matrixLLT().diagonal().array().log().sum();
             inv_ = llt_.solve(mat_t::Identity(sigma_.rows(), sigma_.cols()));
         }
     }
@@ -757,7 +757,7 @@ private:
         llt_.compute(sigma_.get());
         is_pos_def_ = (llt_.info() == Eigen::Success);
         if (is_pos_def_) {
-            log_det_ = std::log(llt_.matrixL().determinant());
+            log_det_ = llt_.matrixLLT().diagonal().array().log().sum();
             inv_ = llt_.solve(mat_t::Identity(sigma_.rows(), sigma_.cols()));
         }
     }
diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 37abaef..eec96f7 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -200,7 +200,7 @@ private:
         v_llt_.compute(v_.get());
         is_v_pos_def_ = (v_llt_.info() == Eigen::Success);
         if (is_v_pos_def_) {
-            log_v_det_ = std::log(v_llt_.matrixL().determinant());
+            log_v_det_ = v_llt_.matrixLLT().diagonal().array().log().sum();
             v_inv_ = v_llt_.solve(mat_t::Identity(v_.rows(), v_.cols()));
         }
     }
@@ -210,7 +210,7 @@ private:
             x_llt_.compute(x_.get());
             is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
             if (is_x_pos_def_) {
-                log_x_det_ = std::log(x_llt_.matrixL().determinant());
+                log_x_det_ = x_llt_.matrixLLT().diagonal().array().log().sum();
                 x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
                 xv_inv_ = x_.get() * v_inv_;
             }
-- 
2.43.0


From 34bd02abe8e2d11bc256d99ea720c4e7ae16a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 23/23] fix: normal log-density of constant data must not
 cancel far from the origin

---
 include/fastad_bits/reverse/stat/normal.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 5c2fd16..6092c27 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -410,7 +410,7 @@ public:
         , log_sigma_{0}
         , is_pos_def_{false}
         , sq_term_{0}
-        , lin_term_{0}
+        , x_mean_{0}
         , const_term_{0}
     {
         if constexpr (util::is_constant_v<sigma_t>) {
@@ -420,9 +420,11 @@ public:
             if constexpr (util::is_constant_v<x_t>) {
                 auto&& x = x_.get().array();
                 auto&& s = sigma_.get().array();
-                sq_term_ = (x/s).matrix().squaredNorm(); 
-                lin_term_ = (x/(s * s)).sum();
+                // centered at the weighted mean of x, since the terms of 
+                // the expanded square may cancel
                 const_term_ = (1./s).matrix().squaredNorm();
+                x_mean_ = (x/(s * s)).sum() / const_term_;
+                sq_term_ = ((x - x_mean_)/s).matrix().squaredNorm(); 
             }
         }
     }
@@ -443,8 +445,9 @@ public:
 
         if constexpr (util::is_constant_v<x_t> &&
                       util::is_constant_v<sigma_t>) {
+            value_t centered = (m - x_mean_);
             return this->get() = 
-                -0.5 * (sq_term_ - 2 * m * lin_term_ + m * m * const_term_)
+                -0.5 * (sq_term_ + const_term_ * centered * centered)
                     - log_sigma_;
         } else {
             auto z = ((x - m) / s).matrix();
@@ -462,7 +465,7 @@ public:
 
         if constexpr (util::is_constant_v<x_t> &&
                       util::is_constant_v<sigma_t>) {
-            value_t mean_adj = lin_term_ - m * const_term_;
+            value_t mean_adj = const_term_ * (x_mean_ - m);
             mean_.beval(seed * mean_adj);
         } else {
 
@@ -490,7 +493,7 @@ private:
 
     // only used when x and sigma are both constant
     value_t sq_term_;
-    value_t lin_term_;
+    value_t x_mean_;
     value_t const_term_;
 };
 
-- 
2.43.0

