From 9fd9d07f13610f234394046ca6b60352946551b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 01/62] fix: do not pass a null pointer to memcpy() when the
 kernel history is empty

---
 src/init.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/init.cpp b/src/init.cpp
index fdd3aef..3d2cb89 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -787,7 +787,8 @@ void KernelHistory::append(const KernelHistoryEntry &value) {
     if (m_size + 2 > m_capacity) {
         m_capacity = (m_size + 2) * 2;
         void *tmp = malloc_check(m_capacity * sizeof(KernelHistoryEntry));
-        memcpy(tmp, m_data, m_size * sizeof(KernelHistoryEntry));
+        if (m_size)
+            memcpy(tmp, m_data, m_size * sizeof(KernelHistoryEntry));
         free(m_data);
         m_data = (KernelHistoryEntry *) tmp;
     }
-- 
2.43.0


From ad91ebfbd129b4fe54223b85fa0de397c3a711e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 02/62] fix: jit_var_mod() and jit_var_select() dereferenced a
 null pointer for empty operands

---
 src/op.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 5d59f0d..16ac81a 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -672,11 +672,11 @@ uint32_t jitc_var_mod(uint32_t a0, uint32_t a1) {
     if (info.simplify && info.literal) {
         result = jitc_eval_literal(
             info, [](auto l0, auto l1) { return eval_mod(l0, l1); }, v0, v1);
-    } else if (jitc_is_uint(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal)) {
+    } else if (info.size && jitc_is_uint(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal)) {
         uint64_t value = v1->literal - 1;
         Ref tmp = steal(jitc_var_literal(info.backend, info.type, &value, info.size, 0));
         return jitc_var_and(a0, tmp);
-    } else if (v1->is_literal() && jitc_is_one(v1)) {
+    } else if (info.size && v1->is_literal() && jitc_is_one(v1)) {
         uint64_t value = 0;
         result = jitc_var_literal(info.backend, info.type, &value, info.size, 0);
     }
@@ -1269,9 +1269,11 @@ uint32_t jitc_var_ge(uint32_t a0, uint32_t a1) {
 uint32_t jitc_var_select(uint32_t a0, uint32_t a1, uint32_t a2) {
     auto [info, v0, v1, v2] = jitc_var_check<ArrayAllowed | IgnoreTypes>("jit_var_select", a0, a1, a2);
 
-    if (info.size &&
-        (!jitc_is_bool(v0) || v1->type != v2->type ||
-         (v1->is_array() != v2->is_array())))
+    if (info.size == 0)
+        return 0;
+
+    if (!jitc_is_bool(v0) || v1->type != v2->type ||
+        (v1->is_array() != v2->is_array()))
         jitc_raise("jitc_var_select(): invalid operands!");
 
     info.type = (VarType) v1->type;
-- 
2.43.0


From 7fc6ddea0b0b41b1a62fa8faf52bbb1dbf5f5351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 03/62] fix: literal folding of integer operations executed
 undefined behavior on overflow and oversized shifts

---
 src/op.cpp | 58 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 16ac81a..7622d44 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -387,10 +387,36 @@ uint32_t jitc_var_shift(const OpInfo &info, uint32_t index, uint64_t amount) {
 
 // --------------------------------------------------------------------------
 
-template <typename T, enable_if_t<!drjit::detail::is_signed_v<T>> = 0>
-T eval_neg(T v) { return T(-(std::make_signed_t<T>) v); }
+// Integer arithmetic on literals wraps around just like the generated code. The
+// computation uses 64-bit unsigned arithmetic, where this is well-defined in C++.
+template <typename T>
+constexpr bool is_wrapping_v = std::is_integral_v<T> && !std::is_same_v<T, bool>;
 
-template <typename T, enable_if_t<drjit::detail::is_signed_v<T>> = 0>
+template <typename T> auto eval_add(T a, T b) {
+    if constexpr (is_wrapping_v<T>)
+        return T((uint64_t) a + (uint64_t) b);
+    else
+        return a + b;
+}
+
+template <typename T> auto eval_sub(T a, T b) {
+    if constexpr (is_wrapping_v<T>)
+        return T((uint64_t) a - (uint64_t) b);
+    else
+        return a - b;
+}
+
+template <typename T> auto eval_mul(T a, T b) {
+    if constexpr (is_wrapping_v<T>)
+        return T((uint64_t) a * (uint64_t) b);
+    else
+        return a * b;
+}
+
+template <typename T, enable_if_t<is_wrapping_v<T>> = 0>
+T eval_neg(T v) { return T(0 - (uint64_t) v); }
+
+template <typename T, enable_if_t<!is_wrapping_v<T> && !std::is_same_v<T, bool>> = 0>
 T eval_neg(T v) { return -v; }
 
 static bool eval_neg(bool) { jitc_fail("eval_neg(): unsupported operands!"); }
@@ -477,7 +503,12 @@ uint32_t jitc_var_sqrt(uint32_t a0) {
 // --------------------------------------------------------------------------
 
 template <typename T, enable_if_t<drjit::detail::is_signed_v<T>> = 0>
-T eval_abs(T value) { return (T) std::abs(value); }
+T eval_abs(T value) {
+    if constexpr (is_wrapping_v<T>)
+        return value < 0 ? eval_neg(value) : value;
+    else
+        return (T) std::abs(value);
+}
 
 template <typename T, enable_if_t<!drjit::detail::is_signed_v<T>> = 0>
 T eval_abs(T value) { return value; }
@@ -512,7 +543,7 @@ uint32_t jitc_var_add(uint32_t a0, uint32_t a1) {
     if (info.simplify) {
         if (info.literal)
             result = jitc_eval_literal(
-                info, [](auto l0, auto l1) { return l0 + l1; }, v0, v1);
+                info, [](auto l0, auto l1) { return eval_add(l0, l1); }, v0, v1);
         else if (jitc_is_any_zero(v0))
             result = jitc_var_resize(a1, info.size);
         else if (jitc_is_any_zero(v1))
@@ -539,7 +570,7 @@ uint32_t jitc_var_sub(uint32_t a0, uint32_t a1) {
     if (info.simplify) {
         if (info.literal)
             result = jitc_eval_literal(
-                info, [](auto l0, auto l1) { return l0 - l1; }, v0, v1);
+                info, [](auto l0, auto l1) { return eval_sub(l0, l1); }, v0, v1);
         else if (jitc_is_any_zero(v1))
             result = jitc_var_resize(a0, info.size);
         else if (a0 == a1 && !jitc_is_float(v0))
@@ -568,7 +599,7 @@ uint32_t jitc_var_mul(uint32_t a0, uint32_t a1) {
 
         if (info.literal)
             result = jitc_eval_literal(
-                info, [](auto l0, auto l1) { return l0 * l1; }, v0, v1);
+                info, [](auto l0, auto l1) { return eval_mul(l0, l1); }, v0, v1);
         else if (jitc_is_one(v0) || (jitc_is_any_zero(v1) && (jitc_is_int(v0) || fast_math)))
             result = jitc_var_resize(a1, info.size);
         else if (jitc_is_one(v1) || (jitc_is_any_zero(v0) && (jitc_is_int(v0) || fast_math)))
@@ -774,7 +805,7 @@ T eval_fma(T a, T b, T c) { return T(std::fma(a, b, c)); }
 
 template <typename T, enable_if_t<!drjit::detail::is_floating_point_v<T> &&
                                   !std::is_same_v<T, bool>> = 0>
-T eval_fma(T a, T b, T c) { return (T) (a * b + c); }
+T eval_fma(T a, T b, T c) { return eval_add(eval_mul(a, b), c); }
 
 template <typename T, enable_if_t<std::is_same<T, bool>::value> = 0>
 T eval_fma(T, T, T) { jitc_fail("eval_fma(): unsupported operands!"); }
@@ -1559,6 +1590,9 @@ uint32_t jitc_var_xor(uint32_t a0, uint32_t a1) {
 template <typename T, enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>> = 0>
 T eval_shl(T v0, T v1) {
     using UInt = std::make_unsigned_t<T>;
+    // Guard against C++ UB; follow CUDA semantics.
+    if ((UInt) v1 >= sizeof(T) * 8)
+        return T(0);
     return (T) (((UInt) v0) << ((UInt) v1));
 }
 
@@ -1588,7 +1622,13 @@ uint32_t jitc_var_shl(uint32_t a0, uint32_t a1) {
 // --------------------------------------------------------------------------
 
 template <typename T, enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>> = 0>
-T eval_shr(T v0, T v1) { return v0 >> v1; }
+T eval_shr(T v0, T v1) {
+    using UInt = std::make_unsigned_t<T>;
+    // Guard against C++ UB; follow CUDA semantics.
+    if ((UInt) v1 >= sizeof(T) * 8)
+        return v0 < T(0) ? T(-1) : T(0);
+    return v0 >> v1;
+}
 
 template <typename T, enable_if_t<!std::is_integral_v<T> || std::is_same_v<T, bool>> = 0>
 T eval_shr(T, T) { jitc_fail("eval_shr(): unsupported operands!"); }
-- 
2.43.0


From b3cbd424bde8a44f62e5bcc6f503187be63e9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 04/62] fix: jit_var_copysign() aborted when given integer
 literals

---
 src/op.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 7622d44..42de48b 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1011,7 +1011,7 @@ uint32_t jitc_var_copysign(uint32_t a0, uint32_t a1) {
 
     uint32_t result = 0;
     if (info.simplify) {
-        if (info.literal)
+        if (info.literal && jitc_is_float(info.type))
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_copysign(l0, l1); }, v0, v1);
         else if (a0 == a1)
-- 
2.43.0


From 47f2c287504cd058fc57407e893e421e605beb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 05/62] fix: x != NaN and the conversion of NaN to a mask gave
 a result that differs from literals

---
 src/cuda_eval.cpp | 6 ++++--
 src/llvm_eval.cpp | 4 ++--
 src/op.cpp        | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cuda_eval.cpp b/src/cuda_eval.cpp
index 85431ae..f38bbeb 100644
--- a/src/cuda_eval.cpp
+++ b/src/cuda_eval.cpp
@@ -850,7 +850,9 @@ static void jitc_cuda_render(Variable *v) {
 
         case VarKind::Neq:
             if (!jitc_is_bool(a0))
-                fmt("    setp.ne.$t $v, $v, $v;\n", a0, v, a0, a1);
+                fmt(jitc_is_float(a0) ? "    setp.neu.$t $v, $v, $v;\n"
+                                      : "    setp.ne.$t $v, $v, $v;\n",
+                    a0, v, a0, a1);
             else
                 fmt("    xor.$t $v, $v, $v;\n", v, v, a0, a1);
             break;
@@ -1039,7 +1041,7 @@ static void jitc_cuda_render(Variable *v) {
         case VarKind::Cast:
             if (jitc_is_bool(v)) {
                 fmt(jitc_is_float(a0) && !jitc_is_half(a0)
-                    ? "    setp.ne.$t $v, $v, 0.0;\n"
+                    ? "    setp.neu.$t $v, $v, 0.0;\n"
                     : "    setp.ne.$b $v, $v, 0;\n",
                     a0, v, a0);
             } else if (jitc_is_bool(a0)) {
diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index ba6e8aa..a7b09ba 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -834,7 +834,7 @@ static void jitc_llvm_render(Variable *v) {
             break;
 
         case VarKind::Neq:
-            fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $v\n"
+            fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $v\n"
                                   : "    $v = icmp ne $V, $v\n", v, a0, a1);
             break;
 
@@ -956,7 +956,7 @@ static void jitc_llvm_render(Variable *v) {
 
         case VarKind::Cast:
             if (jitc_is_bool(v)) {
-                fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $z\n"
+                fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $z\n"
                                       : "    $v = icmp ne $V, $z\n",
                     v, a0);
             } else if (jitc_is_bool(a0)) {
diff --git a/src/op.cpp b/src/op.cpp
index 42de48b..6fc2188 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1176,7 +1176,7 @@ uint32_t jitc_var_neq(uint32_t a0, uint32_t a1) {
         if (info.literal)
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return l0 != l1; }, v0, v1);
-        else if (a0 == a1)
+        else if (a0 == a1 && !jitc_is_float(v0))
             result = jitc_make_zero(info);
     }
 
-- 
2.43.0


From d818b976c881d4e4d93fb5083d0548fa35834570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 06/62] fix: scatter-additions of NaN values were dropped by
 the local and conflict-free reduction modes

---
 src/llvm_scatter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index 2301d72..f73de10 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -235,7 +235,10 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = reduce_op_name[(int) op],
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               // Sums must also propagate NaNs, hence the unordered comparison
+               *cmp_op = jitc_is_float(v)
+                             ? (op == ReduceOp::Add ? "fcmp une" : "fcmp one")
+                             : "icmp ne";
 
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%red_out", "do_scatter_end");
 
@@ -331,7 +334,10 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = reduce_op_name[(int) op],
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               // Sums must also propagate NaNs, hence the unordered comparison
+               *cmp_op = jitc_is_float(v)
+                             ? (op == ReduceOp::Add ? "fcmp une" : "fcmp one")
+                             : "icmp ne";
 
 
     auto [vector_reduce_name, vector_reduce_modifier, vector_reduce_identity,
-- 
2.43.0


From feddab5d0e238d6ddb3cd16703ca119a609f56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:44 +0000
Subject: [PATCH 07/62] fix: expanding the target of a pending
 scatter-reduction discarded the pending updates

---
 src/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 7ff9e74..0014cf7 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2910,8 +2910,9 @@ std::pair<uint32_t, uint32_t> jitc_var_expand(uint32_t index, ReduceOp op) {
 
     v = jitc_var(index);
     if (!v->is_literal() || v->literal != identity) {
+        // Flush pending writes to the source array, which would be lost otherwise
         void *src_addr = nullptr;
-        Ref src = steal(jitc_var_data(index, false, &src_addr));
+        Ref src = steal(jitc_var_data(index, true, &src_addr));
         jitc_memcpy_async(backend, dst_addr, src_addr,
                           size * tsize);
     }
-- 
2.43.0


From 6410222545b01fdba00bd577c9f20c92cad1d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 08/62] fix: jit_var_cond_end() ignored the branch sizes when
 the condition is scalar

The output variables inherited the size of the condition, which either
aborted the process or produced a scalar result when the return values of the
branches were larger arrays.
---
 src/cond.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cond.cpp b/src/cond.cpp
index d23e516..20b2ce0 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -172,6 +172,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
         v2.dep[1] = i_f;
         v2.dep[2] = pred;
         v2.type = (uint32_t) vt;
+        v2.size = lm;
         jitc_var_inc_ref(i_t, v_t);
         jitc_var_inc_ref(i_f, v_f);
         jitc_var_inc_ref(pred);
-- 
2.43.0


From 63dc0af25303f2a26e46a120385f33448dcfad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 09/62] fix: stale register indices made a conditional
 statement refer to variables of another kernel

When outputs of one conditional ended up in differently-sized kernels of the
same jit_eval() call, code generation of the second kernel believed that it
also contained the outputs of the first, which produced invalid LLVM IR and
aborted the process.
---
 src/eval.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eval.cpp b/src/eval.cpp
index ea25e80..3b047dd 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1143,6 +1143,12 @@ void jitc_eval_impl(ThreadState *ts) {
 
     for (ScheduledGroup &group : schedule_groups) {
         jitc_assemble(ts, group);
+
+        // Variables can be part of several kernels, and code generation checks
+        // register indices to detect if a variable is part of the current one
+        for (uint32_t i = group.start; i < group.end; ++i)
+            jitc_var(schedule[i].index)->reg_index = 0;
+
         jitc_run(ts, group);
     }
 
-- 
2.43.0


From 23a0172fce0d08dfc20e3b941973ab77fb90149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 10/62] fix: evaluating arrays while recording discarded later
 scatter-reductions

jit_eval() can be triggered while a symbolic operation is being recorded.
When this merged an array expanded by an earlier scatter-reduction, updates
recorded in the meantime still targeted the expanded representation, which
nothing combined anymore.
---
 src/var.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 0014cf7..e8b17c2 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2960,7 +2960,19 @@ void jitc_var_reduce_expanded(uint32_t index) {
         size
     );
 
-    jitc_var(index)->set_reduce_op(ReduceOp::Identity);
+    v = jitc_var(index);
+    if (v->is_dirty()) {
+        // There are further scatter-reductions (recorded as part of an ongoing
+        // symbolic operation) that will write to the expanded representation.
+        // Keep it, and clear the accumulators that were just merged.
+        uint64_t identity = jitc_reduce_identity((VarType) v->type, v->reduce_op());
+        jitc_memset_async(backend,
+                          (uint8_t *) v->data + (size_t) size * tsize,
+                          (exp - 1) * size, tsize, &identity);
+        return;
+    }
+
+    v->set_reduce_op(ReduceOp::Identity);
 }
 
 #if defined(DRJIT_ENABLE_METAL)
-- 
2.43.0


From 3b6853b2d4164cad5f022d36f72541200de12b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 11/62] fix: literal return values of a conditional could be
 defined inside of a branch

When both branches of a conditional statement return the same literal, later
uses referred to a variable that was potentially materialized within one of
the branches, which produced invalid LLVM IR and aborted the process.
---
 src/cond.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index 20b2ce0..25ba54b 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -148,14 +148,23 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             continue;
         }
 
-        if (i_t == i_f || v_f->is_dirty() ||
-            (v_f->is_literal() && v_t->is_literal() && v_f->literal == v_t->literal)) {
+        if (i_t == i_f || v_f->is_dirty()) {
             jitc_var_inc_ref(i_f, v_f);
             rv_out[i] = i_f;
             cd->indices_out.emplace_back(0, 0);
             continue;
         }
 
+        if (v_f->is_literal() && v_t->is_literal() && v_f->literal == v_t->literal) {
+            // Create a new literal in the current scope. The existing ones may
+            // be defined within a branch, which does not dominate later uses.
+            uint64_t value = v_f->literal;
+            rv_out[i] = jitc_var_literal(backend, vt, &value,
+                                         std::max(v_t->size, v_f->size), 0);
+            cd->indices_out.emplace_back(0, 0);
+            continue;
+        }
+
         uint32_t l1 = size, l2 = v_t->size, l3 = v_f->size,
                  lm = std::max(std::max(l1, l2), l3);
 
-- 
2.43.0


From 04c7bd5d90f8b1c313a6437132dd77a920821615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 12/62] fix: single-instance calls reused function names when
 MergeFunctions is disabled

Every callable needs an unique name. Direct calls did not advance the
counter, so later functions were either not emitted or defined twice.
---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 3b047dd..2abba19 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1316,7 +1316,8 @@ XXH128_hash_t jitc_assemble_func(const CallData *call, uint32_t inst,
     if (jit_flag(JitFlag::MergeFunctions)) {
         kernel_hash = XXH128(buffer.get() + kernel_offset, kernel_length, 0);
     } else {
-        kernel_hash.low64 = indirect_callable_count;
+        // Must be unique among all direct *and* indirect callables
+        kernel_hash.low64 = globals_map.size();
         kernel_hash.high64 = 0;
     }
 
-- 
2.43.0


From 9294301a317e639c079cd88d557e49cf1a935d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 13/62] fix: repair the bookkeeping of expanded
 scatter-reduction targets evaluated while recording

---
 src/op.cpp  | 20 ++++++++++----------
 src/var.cpp |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 6fc2188..813ed0e 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2873,6 +2873,10 @@ jitc_var_infer_reduce_mode(const char *name, JitBackend backend, Ref &target,
     // Raise an error if the target array is currently stored in an expanded
     // form that isn't compatible with the operation to be performed.
     ReduceOp op_cur = jitc_var(target)->reduce_op();
+    if (op_cur != ReduceOp::Identity && op_cur != op && !jitc_var(target)->is_dirty()) {
+        jitc_var_reduce_expanded(target);
+        op_cur = ReduceOp::Identity;
+    }
     if (op_cur != ReduceOp::Identity && op_cur != op)
         jitc_raise(
             "%s(): it is not legal to mix different types of "
@@ -2904,16 +2908,12 @@ jitc_var_infer_reduce_mode(const char *name, JitBackend backend, Ref &target,
             const Variable *index_v2 = jitc_var(index);
             uint32_t size = index_v2->size;
 
-            // Track if this is the first time that 'jit_var_expand' is called
-            reduce_expanded =
-                jitc_var(target)->reduce_op() == ReduceOp::Identity;
-
-            // When capturing symbolic loops, side effects might be deleted
-            // and re-recorded. So, even if `jit_var_expand` was already called
-            // once, its corresponding side effect might have been deleted. We
-            // therefore always mark this as the first time it's being called
-            // when inside a symbolic scope.
-            reduce_expanded |= (bool) jit_flag(JitFlag::SymbolicScope);
+            // Always request a reduction following this operation (redundant
+            // ones do nothing). Even if `jit_var_expand` was already called
+            // once, its corresponding side effect might have been deleted when
+            // re-recording a symbolic loop, or it might have been evaluated
+            // while recording a symbolic operation.
+            reduce_expanded = true;
 
             auto [target_i, expand_i] = jitc_var_expand(target, op);
             target = steal(target_i);
diff --git a/src/var.cpp b/src/var.cpp
index e8b17c2..a9bc784 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2961,10 +2961,10 @@ void jitc_var_reduce_expanded(uint32_t index) {
     );
 
     v = jitc_var(index);
-    if (v->is_dirty()) {
-        // There are further scatter-reductions (recorded as part of an ongoing
-        // symbolic operation) that will write to the expanded representation.
-        // Keep it, and clear the accumulators that were just merged.
+    if (v->is_dirty() && jit_flag(JitFlag::SymbolicScope)) {
+        // There may be further scatter-reductions (recorded as part of an
+        // ongoing symbolic operation) that will write to the expanded
+        // representation. Keep it, and clear the merged accumulators.
         uint64_t identity = jitc_reduce_identity((VarType) v->type, v->reduce_op());
         jitc_memset_async(backend,
                           (uint8_t *) v->data + (size_t) size * tsize,
-- 
2.43.0


From e1529754cc516a2e5b5b49c6c520cc46e9aad54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 14/62] fix: literal folding of rsqrt() disagreed with the
 kernel for negative zero and infinity

---
 src/op.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 813ed0e..3d3dfa2 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1699,7 +1699,7 @@ uint32_t jitc_var_rcp(uint32_t a0) {
 // --------------------------------------------------------------------------
 
 template <typename T, enable_if_t<drjit::detail::is_floating_point<T>::value> = 0>
-T eval_rsqrt(T value) { return T(1 / std::sqrt(value)); }
+T eval_rsqrt(T value) { return T(std::sqrt(T(1 / value))); }
 
 template <typename T, enable_if_t<!drjit::detail::is_floating_point<T>::value> = 0>
 T eval_rsqrt(T) { jitc_fail("eval_rsqrt(): unsupported operands!"); }
-- 
2.43.0


From f73a11da0f04131f2a3cbe18a6b5ca493fcf645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 15/62] fix: signed and unsigned min/max scatter-reductions in
 one kernel produced clashing function names

---
 src/llvm_scatter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index f73de10..8e39223 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -188,7 +188,7 @@ static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, co
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%val_i", "loop_suffix");
 
     fmt_intrinsic(
-        "define internal fastcc void @reduce_$s_$h_atomic(<$w x ptr> %ptr, $T %val, i$w %active) local_unnamed_addr #0 {\n"
+        "define internal fastcc void @reduce_$s_$s_atomic(<$w x ptr> %ptr, $T %val, i$w %active) local_unnamed_addr #0 {\n"
         "prelude:\n"
         "    %ptr_a = alloca [$w x ptr], align $u\n"
         "    %val_a = alloca [$w x $t], align $u\n"
@@ -218,7 +218,7 @@ static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, co
         "}",
 
         // definition
-        op_name, v, v, ptr_align_vec,
+        op_name, type_name_short[(int) vt], v, ptr_align_vec,
         v, val_align_vec, ptr_align_vec,
         v, val_align_vec,
         v, ptr_align,
@@ -256,7 +256,7 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
     // Failed experiment: skipping to the next element via ctz() wasn't
     // faster because of the resulting inter-instruction dependency
     fmt_intrinsic(
-        "define internal fastcc void @reduce_$s_$h_atomic_local(<$w x ptr> %ptr, $T %value, i$w %active_in) local_unnamed_addr #0 {\n"
+        "define internal fastcc void @reduce_$s_$s_atomic_local(<$w x ptr> %ptr, $T %value, i$w %active_in) local_unnamed_addr #0 {\n"
         "prelude:\n"
         "    %ptr_a = alloca [$w x ptr], align $u\n"
         "    store <$w x ptr> %ptr, ptr %ptr_a, align $u\n"
@@ -313,7 +313,7 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
         "}",
 
         // definition
-        op_name, v, v, ptr_align_vec, ptr_align_vec,
+        op_name, type_name_short[(int) vt], v, ptr_align_vec, ptr_align_vec,
         v, v, &id_v,
         v, v,
         cmp_op, v,
@@ -416,7 +416,7 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
     id_v.literal = jitc_reduce_identity(vt, op);
 
     fmt_intrinsic(
-        "define internal fastcc void @reduce_$s_$h_noconflict(<$w x ptr> %ptr, $T %value, i$w %active_in) local_unnamed_addr #0 {\n"
+        "define internal fastcc void @reduce_$s_$s_noconflict(<$w x ptr> %ptr, $T %value, i$w %active_in) local_unnamed_addr #0 {\n"
         "prelude:\n"
         "    %ptr_a = alloca [$w x ptr], align $u\n"
         "    store <$w x ptr> %ptr, ptr %ptr_a, align $u\n"
@@ -473,7 +473,7 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
         "}",
 
         // definition
-        op_name, v, v, ptr_align_vec, ptr_align_vec,
+        op_name, type_name_short[(int) vt], v, ptr_align_vec, ptr_align_vec,
         v, v, &id_v,
         v, v,
         cmp_op, v,
@@ -521,10 +521,10 @@ void jitc_llvm_render_scatter_reduce(const Variable *v,
 
     fmt("    $v_1 = getelementptr inbounds $t, $<ptr$> $v, $V\n"
         "    $v_2 = bitcast $V to i$w\n"
-        "    call fastcc void @reduce_$s_$h_$s(<$w x ptr> $v_1, $V, i$w $v_2)\n",
+        "    call fastcc void @reduce_$s_$s_$s(<$w x ptr> $v_1, $V, i$w $v_2)\n",
         v, value, ptr, index,
         v, mask,
-        reduce_op_name[(int) op], value, variant, v, value, v);
+        reduce_op_name[(int) op], type_name_short[(int) vt], variant, v, value, v);
 }
 
 void jitc_llvm_render_scatter_inc(Variable *v, const Variable *ptr,
-- 
2.43.0


From e85d9efeff675b75ec613664b1b2df43c2a4ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 16/62] fix: scatter-reductions and atomic increments generated
 invalid IR for a vector width of 32

---
 src/llvm_scatter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index 8e39223..5fa0d0c 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -192,7 +192,7 @@ static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, co
         "prelude:\n"
         "    %ptr_a = alloca [$w x ptr], align $u\n"
         "    %val_a = alloca [$w x $t], align $u\n"
-        "    %valid = zext i$w %active to i32\n"
+        "    %valid = $s i$w %active to i32\n"
         "    store <$w x ptr> %ptr, ptr %ptr_a, align $u\n"
         "    store $T %val, ptr %val_a, align $u\n"
         "    br label %loop_prefix\n\n"
@@ -219,7 +219,9 @@ static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, co
 
         // definition
         op_name, type_name_short[(int) vt], v, ptr_align_vec,
-        v, val_align_vec, ptr_align_vec,
+        v, val_align_vec,
+        jitc_llvm_vector_width == 32 ? "bitcast" : "zext",
+        ptr_align_vec,
         v, val_align_vec,
         v, ptr_align,
         v, val_align,
@@ -554,7 +556,7 @@ void jitc_llvm_render_scatter_inc(Variable *v, const Variable *ptr,
         "    %ptr_b1 = shufflevector <$w x i64> %ptr_b0, <$w x i64> undef, <$w x i32> $z\n"
         "    %active_v = icmp eq <$w x i64> %ptr_b1, %ptrs\n"
         "    %active_i0 = bitcast <$w x i1> %active_v to i$w\n"
-        "    %active_i1 = zext i$w %active_i0 to i32\n"
+        "    %active_i1 = $s i$w %active_i0 to i32\n"
         "    %ptrs_next = select <$w x i1> %active_v, <$w x i64> $z, <$w x i64> %ptrs\n"
         "    br label %L3\n\n"
         "L3:\n"
@@ -578,7 +580,8 @@ void jitc_llvm_render_scatter_inc(Variable *v, const Variable *ptr,
         "    br label %L1;\n"
         "L5:\n"
         "    ret <$w x i32> %out\n"
-        "}"
+        "}",
+        jitc_llvm_vector_width == 32 ? "bitcast" : "zext"
     );
 
     v->consumed = 1;
-- 
2.43.0


From 344cd719307683f4d95f3a98f0b360ab7dfcef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 17/62] fix: variables shared by a call and its callee lost
 their register index before the call was emitted

---
 src/call.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/call.cpp b/src/call.cpp
index 7ca8b53..fdf5ac6 100644
--- a/src/call.cpp
+++ b/src/call.cpp
@@ -942,6 +942,12 @@ void jitc_var_call_assemble(CallData *call, uint32_t call_reg,
     alloca_size = alloca_size_backup;
     alloca_align = alloca_align_backup;
 
+    // Callees can share variables with the caller (e.g. a literal that is also
+    // passed as an argument). The steps above reset the associated register
+    // indices, which are needed to generate the function call below.
+    for (const JitBackupRecord &b : backup)
+        jitc_var(b.sv.index)->reg_index = b.reg_index;
+
     if (jitc_is_llvm(call->backend))
         jitc_var_call_assemble_llvm(call, call_reg, self_reg, mask_reg,
                                     out_size, out_align);
-- 
2.43.0


From becb512aca3c029b53a0354b13176d82236d3745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 18/62] fix: identical direct and indirect callables in one
 kernel were given the same function name

---
 src/eval.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 2abba19..93740fd 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1314,7 +1314,9 @@ XXH128_hash_t jitc_assemble_func(const CallData *call, uint32_t inst,
     size_t kernel_length = buffer.size() - kernel_offset;
 
     if (jit_flag(JitFlag::MergeFunctions)) {
-        kernel_hash = XXH128(buffer.get() + kernel_offset, kernel_length, 0);
+        // Distinguish direct and indirect callables, which aren't shared
+        kernel_hash = XXH128(buffer.get() + kernel_offset, kernel_length,
+                             call->n_inst == 1 ? 1 : 0);
     } else {
         // Must be unique among all direct *and* indirect callables
         kernel_hash.low64 = globals_map.size();
-- 
2.43.0


From f69aba75f278ec095a56d0e3c40ed0cc28b2f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 19/62] fix: formatting the smallest signed integer overflowed

---
 include/drjit-core/nanostl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 5a5337e..53dcc42 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -564,7 +564,7 @@ template <typename T> struct formatter<T, enable_if_t<std::is_integral_v<T>>> {
 
         if constexpr (std::is_signed_v<T>) {
             if (value < 0) {
-                value_u = UInt(-value);
+                value_u = UInt(UInt(0) - value_u);
                 is_negative = true;
             }
         }
-- 
2.43.0


From a1debfadf5bab2603e5938862a38275489aa2dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 20/62] fix: self-assignment cleared a drjit::string

---
 include/drjit-core/nanostl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 53dcc42..85f480f 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -385,7 +385,7 @@ public:
     string(const string &v) { assign(v); }
 
     template <typename T> string &operator=(const T &v) { return assign(v); }
-    string &operator=(const string &v) { return assign(v); }
+    string &operator=(const string &v) { return this != &v ? assign(v) : *this; }
     string &operator=(string &&v) noexcept {
         m_data = std::move(v.m_data);
         m_size = v.m_size;
-- 
2.43.0


From b02abe9c551abea341256375bc11490b396e677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 21/62] fix: self-move-assignment destroyed the target of a
 drjit::unique_ptr

---
 include/drjit-core/nanostl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 85f480f..56a34ab 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -53,8 +53,7 @@ public:
     ~unique_ptr() { reset(); }
 
     unique_ptr &operator=(unique_ptr &&other) noexcept {
-        reset(other.m_data);
-        other.m_data = nullptr;
+        reset(other.release());
         return *this;
     }
 
-- 
2.43.0


From c8e536ebb5f27eec283bc9aec5563bc2750ad36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 22/62] fix: drjit::vector::push_back()/emplace_back() accessed
 freed memory when given an element of the vector

---
 include/drjit-core/nanostl.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 56a34ab..79736a1 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -158,8 +158,12 @@ public:
     }
 
     void push_back(const T &value) {
-        if (m_size == m_capacity)
+        if (m_size == m_capacity) {
+            T tmp(value); // 'value' could be an element of this vector
             expand();
+            new (&m_data[m_size++]) T(std::move(tmp));
+            return;
+        }
         new (&m_data[m_size]) T(value);
         m_size++;
     }
@@ -172,8 +176,12 @@ public:
     }
 
     template <typename... Args> T &emplace_back(Args &&...args) {
-        if (m_size == m_capacity)
+        if (m_size == m_capacity) {
+            T tmp(std::forward<Args>(args)...); // may refer to this vector
             expand();
+            new (&m_data[m_size]) T(std::move(tmp));
+            return m_data[m_size++];
+        }
         new (&m_data[m_size]) T(std::forward<Args>(args)...);
         return m_data[m_size++];
     }
-- 
2.43.0


From 7e4e4b2b150e411b5d09402250b558e4a2fea86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 23/62] fix: dummy_string measured 'const char *' arguments as
 pointers instead of strings

---
 include/drjit-core/nanostl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 79736a1..546be0a 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -653,7 +653,7 @@ template <typename T> struct formatter<T, enable_if_t<std::is_floating_point_v<T
 
 struct dummy_string {
     template <typename... Ts> dummy_string &iput(size_t indent, const Ts &...args) {
-        m_size += (detail::formatter<Ts>::bound(indent, args) + ...);
+        m_size += (detail::make_formatter<Ts>::bound(indent, args) + ...);
         return *this;
     }
     template <typename... Ts> dummy_string &put(const Ts &...args) {
-- 
2.43.0


From bb02cbaec5d2a607fce7d8c936528ccf90e5b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 24/62] fix: aligned_allocator failed for alignments smaller
 than a pointer

---
 src/alloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/alloc.h b/src/alloc.h
index 77c8b38..f249e61 100644
--- a/src/alloc.h
+++ b/src/alloc.h
@@ -43,7 +43,9 @@ public:
     value_type *allocate(size_t count) {
         void *ptr;
 #if !defined(_WIN32)
-        if (posix_memalign(&ptr, Align, sizeof(T) * count) != 0)
+        // posix_memalign() rejects alignments smaller than a pointer
+        constexpr size_t PAlign = Align < sizeof(void *) ? sizeof(void *) : Align;
+        if (posix_memalign(&ptr, PAlign, sizeof(T) * count) != 0)
             jitc_fail("aligned_allocator::allocate(): out of memory!");
 #else
         if ((ptr = _aligned_malloc(sizeof(T) * count, Align)) == nullptr)
-- 
2.43.0


From 2802358e6448bfb52d6406e8d561f4143cda44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:04 +0000
Subject: [PATCH 25/62] fix: the JIT code memory manager cleared padding beyond
 the end of an exhausted buffer

---
 src/llvm_memmgr.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/llvm_memmgr.cpp b/src/llvm_memmgr.cpp
index ee09ebb..022750c 100644
--- a/src/llvm_memmgr.cpp
+++ b/src/llvm_memmgr.cpp
@@ -32,15 +32,17 @@ uint8_t *jitc_llvm_memmgr_allocate(void * /* opaque */, uintptr_t size,
 
     size_t offset_align = (jitc_llvm_memmgr_offset + (align - 1)) / align * align;
 
+    if (offset_align + size > jitc_llvm_memmgr_size) {
+        jitc_llvm_memmgr_offset = offset_align + size;
+        return nullptr;
+    }
+
     // Zero-fill including padding region
     memset(jitc_llvm_memmgr_data + jitc_llvm_memmgr_offset, 0,
            offset_align - jitc_llvm_memmgr_offset);
 
     jitc_llvm_memmgr_offset = offset_align + size;
 
-    if (jitc_llvm_memmgr_offset > jitc_llvm_memmgr_size)
-        return nullptr;
-
     return jitc_llvm_memmgr_data + offset_align;
 }
 
-- 
2.43.0


From 4a65171a587dfe814d4d4509d5df04083b82dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:04 +0000
Subject: [PATCH 26/62] fix: failed large host allocations went undetected and
 corrupted the accounting

---
 src/malloc.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 2d7b380..e716a62 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -80,7 +80,7 @@ static void *aligned_malloc(size_t size) {
             madvise(ptr, size, MADV_HUGEPAGE);
 #endif
 
-        return ptr;
+        return ptr != MAP_FAILED ? ptr : nullptr;
     }
 #else
     return _aligned_malloc(size, 64);
@@ -205,17 +205,17 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
 
         descr = "new allocation";
 
+        if (unlikely(!ptr))
+            jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
+                       "(backend=%s, shared=%i).", size,
+                       jitc_backend_name(backend), (int) shared);
+
         state.alloc_allocated[(int) backend] += size;
         state.alloc_watermark[(int) backend] =
             std::max(state.alloc_allocated[(int) backend],
                      state.alloc_watermark[(int) backend]);
     }
 
-    if (unlikely(!ptr))
-        jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
-                   "(backend=%s, shared=%i).", size,
-                   jitc_backend_name(backend), (int) shared);
-
     state.alloc_used.emplace((uintptr_t) ptr, ai);
     state.alloc_usage[(int) backend] += size;
 
-- 
2.43.0


From 9557920205046d29a6637a202918d85d1d361741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:13 +0000
Subject: [PATCH 27/62] fix: shared memory was leaked when freed by a thread
 that had not used the backend

---
 src/malloc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index e716a62..3832c24 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -280,6 +280,10 @@ void jitc_free(void *ptr) {
         default: break;
     }
 
+    // Threads that haven't used the backend so far may also free memory
+    if (shared && !ts && (state.backends & (1u << (uint32_t) backend)))
+        ts = thread_state(backend);
+
     if (ts)
         ts->notify_free(ptr);
 
-- 
2.43.0


From 0ddb648cd11688e2818a365e61b0aeb54dcf3f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 28/62] fix: jit_block_mkperm() ran past the end of the input
 when the last group is partial

---
 src/llvm_ts.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 816d6f5..7909aa2 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -845,7 +845,8 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
             uint32_t *buckets_local = (uint32_t *) malloc_check(bsize);
             memset(buckets_local, 0, bsize);
 
-            for (uint32_t i = start; i != end; ++i)
+            // Tasks of the last group may lie beyond the end of the array
+            for (uint32_t i = start; i < end; ++i)
                 buckets_local[ptr[i]]++;
 
             buckets[index] = buckets_local;
@@ -913,7 +914,7 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
 
             uint32_t *buckets_local = buckets[index];
 
-            for (uint32_t i = start; i != end; ++i) {
+            for (uint32_t i = start; i < end; ++i) {
                 uint32_t idx = buckets_local[ptr[i]]++;
                 perm[idx] = i;
             }
-- 
2.43.0


From 5eba57f9286fee2a71f37dda3a38cf66c87fcb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 29/62] fix: jit_reduce() and jit_block_prefix_reduce() did not
 match their declarations (parameter order)

---
 src/api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 5847f0f..8c25317 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1301,7 +1301,7 @@ void jit_memcpy_async(JitBackend backend, void *dst, const void *src, size_t siz
 }
 
 void jit_reduce(JitBackend backend, VarType type, ReduceOp op,
-                uint32_t size, const void *in, void *out) {
+                const void *in, uint32_t size, void *out) {
     lock_guard guard(state.lock);
     jitc_reduce(backend, type, op, size, in, out);
 }
@@ -1332,7 +1332,7 @@ void jit_block_prefix_reduce(JitBackend backend, VarType type, ReduceOp op,
                              uint32_t block_size, uint32_t size, int exclusive,
                              int reverse, const void *in, void *out) {
     lock_guard guard(state.lock);
-    jitc_block_prefix_reduce(backend, type, op, block_size, size,
+    jitc_block_prefix_reduce(backend, type, op, size, block_size,
                              exclusive != 0, reverse != 0, in, out);
 }
 
-- 
2.43.0


From 5faa024d88e1ea12ca60a1dca637cca8597ddcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 30/62] fix: literal sum/product reductions were wrong for
 large integer products and half precision sizes

---
 src/var.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index a9bc784..fc217a2 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2416,14 +2416,28 @@ uint32_t jitc_var_compress(uint32_t index) {
 template <typename T> static void jitc_var_reduce_scalar_add(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(value * T(size));
+    if constexpr (std::is_integral_v<T>)
+        value = T((uint64_t) value * size); // wraps around
+    else
+        value = T((double) value * (double) size);
     memcpy(ptr, &value, sizeof(T));
 }
 
 template <typename T> static void jitc_var_reduce_scalar_mul(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(std::pow((double) value, (double) T(size)));
+    if constexpr (std::is_integral_v<T>) {
+        // Exponentiation by squaring (wraps around)
+        uint64_t result = 1, base = (uint64_t) value;
+        for (uint32_t exp = size; exp; exp >>= 1) {
+            if (exp & 1)
+                result *= base;
+            base *= base;
+        }
+        value = T(result);
+    } else {
+        value = T(std::pow((double) value, (double) size));
+    }
     memcpy(ptr, &value, sizeof(T));
 }
 
-- 
2.43.0


From ec29ebdca7471b853a11bed78b3b1fbe3e170296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 31/62] fix: prefix reductions of literals were wrong or
 crashed (exclusive min/max, partial reverse blocks, mul/and/or)

---
 src/var.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index fc217a2..04d5c78 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2825,6 +2825,8 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
                                       bool reverse) {
     if (!index)
         return index;
+    else if (block_size == 0)
+        jitc_raise("jit_var_block_prefix_reduce(): block_size cannot be 0!");
 
     const Variable *v = jitc_var(index);
     VarType vt = (VarType) v->type;
@@ -2832,10 +2834,14 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
     uint32_t size = v->size;
 
     if (v->is_literal()) {
-        if (op == ReduceOp::Max || op == ReduceOp::Min) {
+        if ((op == ReduceOp::Max || op == ReduceOp::Min) && !exclusive) {
             jitc_var_inc_ref(index);
             return index;
-        } else if (op == ReduceOp::Add) {
+        } else if (op == ReduceOp::Add &&
+                   // A reverse scan of a partial last block needs other offsets
+                   (!reverse || size % block_size == 0) &&
+                   // The counter below must be representable
+                   (vt != VarType::Float16 || block_size <= 2048)) {
             Ref ctr = steal(jitc_var_counter(backend, size, true));
             if (block_size != size) {
                 Ref bsize = steal(jitc_var_u32(backend, block_size));
@@ -2859,12 +2865,9 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
         }
     }
 
-    if (!v->is_evaluated() || v->is_dirty()) {
-        jitc_var_eval(index);
-        v = jitc_var(index);
-    }
-
-    const void *data_in = v->data;
+    // Evaluate the input (literals have no storage of their own)
+    void *data_in = nullptr;
+    Ref tmp = steal(jitc_var_data(index, true, &data_in));
 
     void *data_out =
         jitc_malloc(backend, (size_t) type_size[(int) vt] * size);
-- 
2.43.0


From 4971f801418709015da03b46b6938cc743faa18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 32/62] fix: jit_var_reduce_dot() read from an invalid address
 when an operand is a literal

---
 src/var.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 04d5c78..6ef6acf 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2747,17 +2747,12 @@ uint32_t jitc_var_reduce_dot(uint32_t index_1, uint32_t index_2) {
         (v1->is_evaluated() || v2->is_evaluated())) {
         uint32_t size = v1->size;
 
-        // Fast path
-        bool eval = jitc_var_eval(index_1);
-        eval |= (bool)jitc_var_eval(index_2);
-        if (eval) {
-            v1 = jitc_var(index_1);
-            v2 = jitc_var(index_2);
-        }
+        // Fast path (literals have no storage of their own)
+        void *ptr_1 = nullptr, *ptr_2 = nullptr;
+        Ref tmp_1 = steal(jitc_var_data(index_1, true, &ptr_1)),
+            tmp_2 = steal(jitc_var_data(index_2, true, &ptr_2));
 
-        void *ptr_1 = v1->data,
-             *ptr_2 = v2->data,
-             *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
+        void *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
 
         jitc_reduce_dot(backend, vt, ptr_1, ptr_2, size, data);
 
-- 
2.43.0


From b1e0d5ee44bbc090d3d4719737f8e4b3ed3ddc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:43 +0000
Subject: [PATCH 33/62] fix: signed integer sum/product reductions executed
 undefined behavior on overflow

---
 src/llvm_red.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/llvm_red.h b/src/llvm_red.h
index c5fad6b..7088c1e 100644
--- a/src/llvm_red.h
+++ b/src/llvm_red.h
@@ -7,8 +7,18 @@
     license that can be found in the LICENSE file.
 */
 
+/// Type used to accumulate sums and products: half precision values are
+/// promoted, and signed integers use unsigned arithmetic that wraps around
+template <typename T, bool = std::is_integral_v<T>> struct red_accum {
+    using type = std::conditional_t<std::is_same_v<drjit::half, T>, float, T>;
+};
+
+template <typename T> struct red_accum<T, true> {
+    using type = std::make_unsigned_t<T>;
+};
+
 template <typename T> struct RedAdd {
-    using Value = std::conditional_t<std::is_same_v<drjit::half, T>, float, T>;
+    using Value = typename red_accum<T>::type;
 
     static Value init() { return Value(0); }
 
@@ -16,7 +26,7 @@ template <typename T> struct RedAdd {
 };
 
 template <typename T> struct RedMul {
-    using Value = std::conditional_t<std::is_same_v<drjit::half, T>, float, T>;
+    using Value = typename red_accum<T>::type;
 
     static Value init() { return Value(1); }
 
-- 
2.43.0


From 89d959075fb6d8cfde826d7303ec9b73d016bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 34/62] fix: jit_var_block_reduce() accessed freed memory when
 the variable table grew

---
 src/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 6ef6acf..8a9d1a6 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2514,11 +2514,11 @@ uint32_t jitc_var_block_reduce(ReduceOp op, uint32_t index, uint32_t block_size,
                 break; // Nothing to do for the other reducion types
         }
 
-        Ref result = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_header, reduced, 0));
+        Ref result = steal(jitc_var_literal(backend, vt, &value_header, reduced, 0));
 
         if (reduced * block_size != size) {
 
-            Ref trailer = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_trailer, reduced, 0)),
+            Ref trailer = steal(jitc_var_literal(backend, vt, &value_trailer, reduced, 0)),
                 counter = steal(jitc_var_counter(backend, reduced, true)),
                 limit = steal(jitc_var_u32(backend, reduced - 1)),
                 mask = steal(jitc_var_lt(counter, limit));
-- 
2.43.0


From 84d0ef4058a56a904ac605f92e08ec7bd6ebe879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 35/62] fix: StringBuffer lacked a trailing zero after
 appending numbers or deleting trailing commas

---
 src/strbuf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/strbuf.cpp b/src/strbuf.cpp
index 4f4df8e..1e70393 100644
--- a/src/strbuf.cpp
+++ b/src/strbuf.cpp
@@ -278,6 +278,9 @@ void StringBuffer::delete_trailing_commas() {
         else
             break;
     }
+
+    if (m_start != m_end)
+        *m_cur = '\0';
 }
 
 StringBuffer &StringBuffer::operator=(StringBuffer &&b) {
@@ -356,24 +359,28 @@ void StringBuffer::put_u32(uint32_t value) {
     if (unlikely(!m_cur || m_cur + MAXSIZE_U32 >= m_end))
         m_cur = expand(m_cur, MAXSIZE_U32);
     put_u32_unchecked(value);
+    *m_cur = '\0';
 }
 
 void StringBuffer::put_u64(uint64_t value) {
     if (unlikely(!m_cur || m_cur + MAXSIZE_U64 >= m_end))
         m_cur = expand(m_cur, MAXSIZE_U64);
     put_u64_unchecked(value);
+    *m_cur = '\0';
 }
 
 void StringBuffer::put_x32(uint32_t value) {
     if (unlikely(!m_cur || m_cur + MAXSIZE_X32 >= m_end))
         m_cur = expand(m_cur, MAXSIZE_X32);
     put_x32_unchecked(value);
+    *m_cur = '\0';
 }
 
 void StringBuffer::put_x64(uint64_t value) {
     if (unlikely(!m_cur || m_cur + MAXSIZE_X64 >= m_end))
         m_cur = expand(m_cur, MAXSIZE_X64);
     put_x64_unchecked(value);
+    *m_cur = '\0';
 }
 
 void StringBuffer::put_u32_unchecked(uint32_t value) { m_cur = w_u32(m_cur, value); }
-- 
2.43.0


From 1666508cfd96588eff4933d11b16ef571a4cc9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 36/62] fix: sizes and times that are multiples of 10 were
 printed without their trailing zeros

---
 src/log.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/log.cpp b/src/log.cpp
index d20365d..89f9af5 100644
--- a/src/log.cpp
+++ b/src/log.cpp
@@ -215,12 +215,13 @@ static void print_float_with_unit(char *buf, size_t bufsize, double value,
 
     int pos = snprintf(buf, bufsize, "%.*f", digits_after_comma, value);
 
-    // Remove trailing zeros
-    char c;
-    pos--;
-    while (c = buf[pos], pos > 0 && (c == '0' || c == '.'))
-        pos--;
-    pos++;
+    // Remove trailing zeros of the fractional part
+    if (digits_after_comma > 0) {
+        while (buf[pos - 1] == '0')
+            pos--;
+        if (buf[pos - 1] == '.')
+            pos--;
+    }
 
     // Append unit if there is space
     if (pos + 1 < (int) bufsize)
-- 
2.43.0


From 5c09cd5c4fc72c39a3e8822a28fe4a6d6a47ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 37/62] fix: jit_var_set_label() put every component of a
 multi-part label into brackets

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index 8c25317..e870258 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1077,7 +1077,7 @@ uint32_t jit_var_set_label(uint32_t index, size_t argc, ...) {
     } else if (argc > 1) {
         for (size_t i = 0; i < argc; ++i) {
             const char *s = va_arg(ap, const char *);
-            bool isnum = s[0] >= '0' || s[1] <= '9';
+            bool isnum = s[0] >= '0' && s[0] <= '9';
 
             if (isnum) {
                 buf.put('[');
-- 
2.43.0


From 64ea13cec92812ec510aa3bb0b3bb728dc1bbc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 38/62] fix: jit_var_set_label() leaked a variable when given
 an invalid label

---
 src/api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index e870258..6ce314c 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1102,9 +1102,9 @@ uint32_t jit_var_set_label(uint32_t index, size_t argc, ...) {
         jitc_var_inc_ref(index, v);
         return index;
     } else {
-        uint32_t result = jitc_var_copy(index);
+        Ref result = steal(jitc_var_copy(index));
         jitc_var_set_label(result, label);
-        return result;
+        return result.release();
     }
 }
 
-- 
2.43.0


From 2664461b288d93ee8ae39b9d7fcc6fc8d0e5d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 39/62] fix: symbolic loops assigned register indices to
 results that are not part of the kernel

A later kernel then took the stale index for a variable of its own, which
produced invalid LLVM IR (e.g. in arguments of a function call).
---
 src/llvm_eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index a7b09ba..ba273ec 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -1194,7 +1194,8 @@ static void jitc_llvm_render(Variable *v) {
                              *outer_out = jitc_var(ld->outer_out[l]);
                     fmt("    $v = phi $T [ $v, %l_$u_before ], [ $v, %l_$u_end ]\n",
                         v, v, outer_in, a0->reg_index, inner_out, a0->reg_index);
-                    if (outer_out && (VarKind) outer_out->kind == VarKind::LoopOutput)
+                    if (outer_out && outer_out->reg_index && // part of this kernel?
+                        (VarKind) outer_out->kind == VarKind::LoopOutput)
                         outer_out->reg_index = inner_in->reg_index;
                 }
             }
-- 
2.43.0


From e40e54d8a96e3d97987c8674ee6a2d4b37d21e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 40/62] fix: integer divisions trapped in lanes that do not
 belong to any array element

Vectorised integer divisions also run in the lanes past the end of an array (whose contents are
undefined) and in lanes disabled by control flow. On x86, a zero divisor (or INT_MIN / -1) in such a
lane raised SIGFPE and terminated the process.
---
 src/llvm_eval.cpp | 52 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index ba273ec..9e90dd0 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -678,19 +678,45 @@ static void jitc_llvm_render(Variable *v) {
             break;
 
         case VarKind::Div:
-            if (jitc_is_float(v))
-                stmt = "    $v = fdiv $V, $v\n";
-            else if (jitc_is_uint(v))
-                stmt = "    $v = udiv $V, $v\n";
-            else
-                stmt = "    $v = sdiv $V, $v\n";
-            fmt(stmt, v, a0, a1);
-            break;
-
-        case VarKind::Mod:
-            fmt(jitc_is_uint(v) ? "    $v = urem $V, $v\n"
-                                : "    $v = srem $V, $v\n",
-                v, a0, a1);
+        case VarKind::Mod: {
+                bool is_div = (VarKind) v->kind == VarKind::Div;
+                const char *ones = jitc_llvm_ones_str[v->type];
+
+                // Lanes without a well-defined result exist even in correct
+                // programs: disabled control flow, and entries past the end of
+                // an array. An integer division must not trap in such a lane,
+                // hence replace divisors that would cause this.
+                if (jitc_is_float(v)) {
+                    fmt("    $v = fdiv $V, $v\n", v, a0, a1);
+                } else if (jitc_is_uint(v)) {
+                    fmt("    $v_0 = icmp eq $V, $z\n"
+                        "    $v_1 = select <$w x i1> $v_0, $T $s, $V\n"
+                        "    $v = $s $V, $v_1\n",
+                        v, a1,
+                        v, v, v, ones, a1,
+                        v, is_div ? "udiv" : "urem", a0, v);
+                } else {
+                    fmt("    $v_0 = icmp eq $V, $z\n"
+                        "    $v_1 = sub $T $z, $s\n"
+                        "    $v_2 = icmp eq $V, $v_1\n"
+                        "    $v_3 = or <$w x i1> $v_0, $v_2\n"
+                        "    $v_4 = select <$w x i1> $v_3, $T $s, $V\n"
+                        "    $v$s = $s $V, $v_4\n",
+                        v, a1,
+                        v, v, ones,
+                        v, a1, v,
+                        v, v, v,
+                        v, v, v, ones, a1,
+                        v, is_div ? "_5" : "", is_div ? "sdiv" : "srem", a0, v);
+
+                    // Division by -1
+                    if (is_div)
+                        fmt("    $v_6 = sub $T $z, $v_5\n"
+                            "    $v = select <$w x i1> $v_2, $T $v_6, $T $v_5\n",
+                            v, v, v,
+                            v, v, v, v, v, v);
+                }
+            }
             break;
 
         case VarKind::MulHi:
-- 
2.43.0


From c7294afd5ac8c3e3d9e4f1e1e223e2afe5d15fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 41/62] fix: bounds checks of 64-bit (and 8/16-bit) indices
 generated invalid IR

Gathers and scatters accept index arrays of any integer type, but in debug mode the generated bounds
check compared such an index with a 32-bit constant. LLVM rejected the program, which is a fatal error.
---
 src/op.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 3d3dfa2..2095483 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2045,6 +2045,21 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
 
 uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
                                uint32_t mask, uint32_t array_size) {
+    // The backends compare 32-bit integers. Out-of-range values remain so.
+    Ref index_32 = borrow(index);
+    VarType index_type = (VarType) jitc_var(index)->type;
+    if (jitc_is_int(index_type)) {
+        if (type_size[(int) index_type] == 8) {
+            uint64_t limit = 0xffffffff;
+            Ref limit_v = steal(jitc_var_literal((JitBackend) jitc_var(index)->backend,
+                                                 VarType::UInt64, &limit, 1, 0));
+            index_32 = steal(jitc_var_cast(index_32, VarType::UInt64, 0));
+            index_32 = steal(jitc_var_min(index_32, limit_v));
+        }
+        index_32 = steal(jitc_var_cast(index_32, VarType::UInt32, 0));
+        index = index_32;
+    }
+
     auto [info, v_index, v_mask] =
         jitc_var_check("jit_var_check_bounds", index, mask);
 
-- 
2.43.0


From 38deb3e8287ddd6fe08a4fd75139d1a5d5157d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 42/62] fix: scatter-reductions into expanded 16-bit integer
 arrays failed at evaluation

---
 src/llvm_ts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 7909aa2..d48a498 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -1070,6 +1070,8 @@ static ReduceExpanded reduce_expanded_create(ReduceOp op) {
 static ReduceExpanded reduce_expanded_create(VarType type, ReduceOp op) {
     using half = drjit::half;
     switch (type) {
+        case VarType::Int16:   return reduce_expanded_create<int16_t >(op);
+        case VarType::UInt16:  return reduce_expanded_create<uint16_t>(op);
         case VarType::Int32:   return reduce_expanded_create<int32_t >(op);
         case VarType::UInt32:  return reduce_expanded_create<uint32_t>(op);
         case VarType::Int64:   return reduce_expanded_create<int64_t >(op);
-- 
2.43.0


From d1e09b3df635b95d926263687f540026f3dd6e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 43/62] fix: packet scatters crashed when the target was an
 unaligned memory region

---
 src/op.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 2095483..aec8bf6 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3296,6 +3296,9 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     // generating the assembly.
     use_packet_op = use_packet_op && n > 1 && n % 2 == 0;
 
+    // Packet writes assume that the target is aligned
+    use_packet_op = use_packet_op && !target_v->unaligned;
+
     Ref scale = steal(jitc_var_u32(backend, (uint32_t) n));
 
     // Potentially reduce to a sequence of scatters
-- 
2.43.0


From 1abf82eff4a94be3af768b9866d6979335027767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 44/62] fix: debug mode bounds-checked the expanded index of
 packet scatters and dropped valid writes

---
 src/op.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index aec8bf6..d994a54 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3324,6 +3324,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
 
     // Must compute final index before potentially expanding below
     index = steal(jitc_var_mul(index, scale));
+    Ref index_orig = borrow(index);
 
     // Check if it is safe to directly write to ``target``.
     // See the original scatter operation for details.
@@ -3351,7 +3352,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         mask_2 = steal(jitc_var_check_bounds(
             op == ReduceOp::Identity ? BoundsCheckType::PacketScatter
                                      : BoundsCheckType::PacketScatterReduce,
-            /* original index */ index, mask_2, target_size));
+            /* original index */ index_orig, mask_2, target_size));
     }
 
     uint32_t op_size = std::max(var_info.size, jitc_var(mask_2)->size);
-- 
2.43.0


From 6138ddce47e82745dd9d82302891918f54db78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 45/62] fix: masked scatter_exch() and scatter_cas() returned
 the wrong or no output variables

---
 src/op.cpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index d994a54..cf462ee 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2576,18 +2576,13 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
             "jit_var_scatter_xchg(): input arrays are symbolic, but the "
             "operation was issued outside of a symbolic recording session.");
 
-    if (target_v->is_literal() && value_v->is_literal() &&
-        target_v->literal == value_v->literal) {
-        print_log("skipped, target/source are value variables with the "
-                  "same value");
-        target.release();
-        return *target_p;
-    }
-
     if (mask_v->is_literal() && mask_v->literal == 0) {
         print_log("skipped, always masked");
-        target.release();
-        return *target_p;
+
+        // Masked-off lanes return 0
+        uint64_t zero = 0;
+        return jitc_var_literal(target_info.backend, target_info.type, &zero,
+                                var_info.size, 0);
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
@@ -2687,17 +2682,15 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
             "jit_var_scatter_cas(): input arrays are symbolic, but the "
             "operation was issued outside of a symbolic recording session.");
 
-    if (target_v->is_literal() && value_v->is_literal() &&
-        target_v->literal == value_v->literal) {
-        print_log("skipped, target/source are value variables with the "
-                  "same value");
-        target.release();
-        return;
-    }
-
     if (mask_v->is_literal() && mask_v->literal == 0) {
         print_log("skipped, always masked");
-        target.release();
+
+        // Masked-off lanes return 0
+        uint64_t zero = 0;
+        *old = jitc_var_literal(target_info.backend, target_info.type, &zero,
+                                var_info.size, 0);
+        *success = jitc_var_literal(target_info.backend, VarType::Bool, &zero,
+                                    var_info.size, 0);
         return;
     }
 
-- 
2.43.0


From 3e1fc3772bdfd29593dc426db3bc4c0a53217809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 46/62] fix: jit_registry_remove() aborted the process instead
 of raising an exception

---
 src/registry.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 0aaaa26..6d239a8 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -114,8 +114,7 @@ void jitc_registry_remove(const void *ptr) {
 
     auto it = r.rev_map.find((void *) ptr, ptr_hash);
     if (it == r.rev_map.end()) {
-        jitc_fail("jit_registry_remove(ptr=%p): pointer is not registered!", ptr);
-        return;
+        jitc_raise("jit_registry_remove(ptr=%p): pointer is not registered!", ptr);
     }
 
     ReverseKey rk = it->second;
-- 
2.43.0


From 37f3537ba1acf1762d524fa05dd079eb5146040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 47/62] fix: removing a registered instance after
 jit_shutdown() accessed freed memory

---
 src/registry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/registry.cpp b/src/registry.cpp
index 6d239a8..5f21f0a 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -261,6 +261,10 @@ void jitc_registry_shutdown() {
         }
     }
 
+    // Remaining instances may still be removed following the shutdown
+    for (auto it = r.rev_map.begin(); it != r.rev_map.end(); ++it)
+        it.value().index = UINT32_MAX;
+
     r.domain_ids.clear();
     r.domains.clear();
 }
-- 
2.43.0


From 3dc8f23e8a9316b3c2459b97db89e3f1391c92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 48/62] fix: copies of variable arrays turned into calls to
 memcpy() that failed to compile

---
 src/llvm_array.cpp | 65 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index b694b2d..deebf74 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -199,6 +199,46 @@ void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
         fmt("    $v = trunc $M $v_r to $T\n", v, v, v, v);
 }
 
+/**
+ * Generate a loop that copies all packets of a variable array from `$v_src` to
+ * `$v_dst`. The caller must define these two pointers beforehand.
+ *
+ * Note: the ``llvm.memcpy.inline`` intrinsic is not suitable for this purpose.
+ * LLVM's optimization passes can merge or subdivide such copies and then turn
+ * them into ordinary calls to ``memcpy()`` and ``memmove()``, which cannot be
+ * resolved within a kernel.
+ */
+static void jitc_llvm_render_array_copy(const Variable *v) {
+    uint32_t r = v->reg_index;
+
+    fmt("    br label %l_$u_copy_pre\n\n"
+        "l_$u_copy_pre:\n"
+        "    br label %l_$u_copy\n\n"
+        "l_$u_copy:\n"
+        "    $v_ccur = phi i64 [ 0, %l_$u_copy_pre ], [ $v_cnext, %l_$u_copy ]\n"
+        "    $v_csrc = getelementptr inbounds $M, ptr $v_src, i64 $v_ccur\n"
+        "    $v_cdst = getelementptr inbounds $M, ptr $v_dst, i64 $v_ccur\n"
+        "    $v_cval = load $M, ptr $v_csrc, align $A\n"
+        "    store $M $v_cval, ptr $v_cdst, align $A\n"
+        "    $v_cnext = add i64 $v_ccur, 1\n"
+        "    $v_ccont = icmp ult i64 $v_cnext, $u\n"
+        "    br i1 $v_ccont, label %l_$u_copy, label %l_$u_copy_done\n\n"
+        "l_$u_copy_done:\n",
+        r,
+        r,
+        r,
+        r,
+        v, r, v, r,
+        v, v, v, v,
+        v, v, v, v,
+        v, v, v, v,
+        v, v, v, v,
+        v, v,
+        v, v, v->array_length,
+        v, r, r,
+        r
+    );
+}
 
 void jitc_llvm_render_array_write(Variable *v, Variable *target,
                                   Variable *value, Variable *mask,
@@ -212,10 +252,11 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
     if (copy) {
         target_buffer = jitc_array_buffer(v)->reg_index;
 
-        fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
-        fmt("    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) %arr_$u, ptr align($A) %arr_$u, i32 $u, i1 0)\n",
-            v, target_buffer, v, target->reg_index,
-            target->array_length * type_size[target->type] * jitc_llvm_vector_width);
+        fmt("    $v_src = getelementptr inbounds $m, ptr %arr_$u, i64 0\n"
+            "    $v_dst = getelementptr inbounds $m, ptr %arr_$u, i64 0\n",
+            v, v, target->reg_index,
+            v, v, target_buffer);
+        jitc_llvm_render_array_copy(v);
     }
 
     const char *ext = "";
@@ -338,33 +379,33 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
 }
 
 void jitc_llvm_render_array_memcpy_in(const Variable *v) {
-    fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
     fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
          "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
          "    $v_p3 = mul i64 %index, $u\n"
-         "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
-         "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) %arr_$u, ptr align($A) $v_p4, i32 $u, i1 0)\n",
+         "    $v_src = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
+         "    $v_dst = getelementptr inbounds $m, ptr %arr_$u, i64 0\n",
         v, v,
         v, v,
         v, v->size == 1 ? 0 : v->array_length,
         v, v, v, v,
-        v, v->reg_index, v, v, v->array_length * type_size[v->type] * jitc_llvm_vector_width
+        v, v, v->reg_index
     );
+    jitc_llvm_render_array_copy(v);
 }
 
 void jitc_llvm_render_array_memcpy_out(const Variable *v) {
-    fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
     fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
          "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
          "    $v_p3 = mul i64 %index, $u\n"
-         "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
-         "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) $v_p4, ptr align($A) %arr_$u, i32 $u, i1 0)\n",
+         "    $v_dst = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
+         "    $v_src = getelementptr inbounds $m, ptr %arr_$u, i64 0\n",
         v, v,
         v, v,
         v, v->array_length,
         v, v, v, v,
-        v, v, v, v->reg_index, v->array_length * type_size[v->type] * jitc_llvm_vector_width
+        v, v, v->reg_index
     );
+    jitc_llvm_render_array_copy(v);
 }
 
 void jitc_llvm_render_array_select(Variable *v, Variable *mask, Variable *t, Variable *f) {
-- 
2.43.0


From e68552506d38f106b16a4625f149b518d54929fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 49/62] fix: reads from variable arrays ignored the size of the
 mask

---
 src/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 4ab7c6e..cc027db 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -182,7 +182,7 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
     v.kind = (uint32_t) VarKind::ArrayRead;
     v.backend = vs->backend;
     v.type = vs->type;
-    v.size = std::max(vs->size, vo->size);
+    v.size = (uint32_t) size;
     v.symbolic = vs->symbolic || vo->symbolic;
 
     v.dep[0] = source;
-- 
2.43.0


From 58b7610c9fe4c051b6d3c8470cbafe55f6bd9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 50/62] fix: scalar variable arrays were not broadcast when
 used by a larger kernel

---
 src/llvm_array.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index deebf74..8bb32a5 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -201,14 +201,16 @@ void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
 
 /**
  * Generate a loop that copies all packets of a variable array from `$v_src` to
- * `$v_dst`. The caller must define these two pointers beforehand.
+ * `$v_dst`. The caller must define these two pointers beforehand. When
+ * `broadcast` is set, only the first entry of each source packet is valid, and
+ * it must be replicated.
  *
  * Note: the ``llvm.memcpy.inline`` intrinsic is not suitable for this purpose.
  * LLVM's optimization passes can merge or subdivide such copies and then turn
  * them into ordinary calls to ``memcpy()`` and ``memmove()``, which cannot be
  * resolved within a kernel.
  */
-static void jitc_llvm_render_array_copy(const Variable *v) {
+static void jitc_llvm_render_array_copy(const Variable *v, bool broadcast = false) {
     uint32_t r = v->reg_index;
 
     fmt("    br label %l_$u_copy_pre\n\n"
@@ -217,21 +219,31 @@ static void jitc_llvm_render_array_copy(const Variable *v) {
         "l_$u_copy:\n"
         "    $v_ccur = phi i64 [ 0, %l_$u_copy_pre ], [ $v_cnext, %l_$u_copy ]\n"
         "    $v_csrc = getelementptr inbounds $M, ptr $v_src, i64 $v_ccur\n"
-        "    $v_cdst = getelementptr inbounds $M, ptr $v_dst, i64 $v_ccur\n"
-        "    $v_cval = load $M, ptr $v_csrc, align $A\n"
-        "    store $M $v_cval, ptr $v_cdst, align $A\n"
-        "    $v_cnext = add i64 $v_ccur, 1\n"
-        "    $v_ccont = icmp ult i64 $v_cnext, $u\n"
-        "    br i1 $v_ccont, label %l_$u_copy, label %l_$u_copy_done\n\n"
-        "l_$u_copy_done:\n",
+        "    $v_cdst = getelementptr inbounds $M, ptr $v_dst, i64 $v_ccur\n",
         r,
         r,
         r,
         r,
         v, r, v, r,
         v, v, v, v,
-        v, v, v, v,
-        v, v, v, v,
+        v, v, v, v);
+
+    if (broadcast)
+        fmt("    $v_cval_0 = load $m, ptr $v_csrc, align $a\n"
+            "    $v_cval_1 = insertelement $M undef, $m $v_cval_0, i32 0\n"
+            "    $v_cval = shufflevector $M $v_cval_1, $M undef, <$w x i32> $z\n",
+            v, v, v, v,
+            v, v, v, v,
+            v, v, v, v);
+    else
+        fmt("    $v_cval = load $M, ptr $v_csrc, align $A\n",
+            v, v, v, v);
+
+    fmt("    store $M $v_cval, ptr $v_cdst, align $A\n"
+        "    $v_cnext = add i64 $v_ccur, 1\n"
+        "    $v_ccont = icmp ult i64 $v_cnext, $u\n"
+        "    br i1 $v_ccont, label %l_$u_copy, label %l_$u_copy_done\n\n"
+        "l_$u_copy_done:\n",
         v, v, v, v,
         v, v,
         v, v, v->array_length,
@@ -390,7 +402,9 @@ void jitc_llvm_render_array_memcpy_in(const Variable *v) {
         v, v, v, v,
         v, v, v->reg_index
     );
-    jitc_llvm_render_array_copy(v);
+
+    // The other entries of a scalar variable's packets weren't necessarily written
+    jitc_llvm_render_array_copy(v, v->size == 1);
 }
 
 void jitc_llvm_render_array_memcpy_out(const Variable *v) {
-- 
2.43.0


From d3c8a4e9c7ee59662e0532b2d6fd342750791c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 51/62] fix: kernels that only differ in the length of a
 variable array were given the same hash

---
 src/hash.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hash.h b/src/hash.h
index 13a8103..9ae2fe3 100644
--- a/src/hash.h
+++ b/src/hash.h
@@ -75,14 +75,12 @@ inline size_t hash_str(const char *str) {
     return hash(str, strlen(str));
 }
 
-/// Hash the IR of a just-generated kernel, starting at its body. CUDA and LLVM
-/// unconditionally emit a "body:" label; Metal has no such label, and hashing
-/// starts at the first '{' (of its ``struct Params`` declaration) instead.
+/// Hash the IR of a just-generated kernel following its name (which does not
+/// exist yet at this point). The hash starts at the first '{' instead of the
+/// "body:" label so that it includes the declaration of variable arrays.
 inline XXH128_hash_t hash_kernel(const char *str, size_t size,
-                                 JitBackend backend) {
-    const char *offset = backend == JitBackend::Metal
-                             ? strchr(str, '{')
-                             : strstr(str, "body:");
+                                 JitBackend /* backend */) {
+    const char *offset = strchr(str, '{');
 
     if (unlikely(!offset))
         jitc_fail("hash_kernel(): could not locate the start of the kernel body!");
-- 
2.43.0


From 59d3e477ba0f7af5437c76e7b6228967e1beebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 52/62] fix: jit_var_select() attempted to resize variable
 arrays

The special cases for literal masks and identical arguments return one of the
arguments after resizing it, which is not supported for variable arrays.
---
 src/op.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index cf462ee..3efef97 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1310,7 +1310,12 @@ uint32_t jitc_var_select(uint32_t a0, uint32_t a1, uint32_t a2) {
     info.type = (VarType) v1->type;
 
     uint32_t result = 0;
-    if (info.simplify || a1 == a2) {
+
+    // Array variables cannot be resized
+    bool array_resize =
+        v1->is_array() && (v1->size != info.size || v2->size != info.size);
+
+    if ((info.simplify || a1 == a2) && !array_resize) {
         if (jitc_is_one(v0) || a1 == a2)
             return jitc_var_resize(a1, info.size);
         else if (jitc_is_zero(v0))
-- 
2.43.0


From b48216c91f1b565cdf3ed7b7fce7b64b34a65285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 53/62] fix: conflicting accesses to variable arrays returned
 wrong contents

The state machine that elides array copies ignored 'select' operations, the
second branch of conditionals, and operations within callables. Storage
regions were shared between an array and its successors, which made it
impossible to preserve a previous version, and conditionals whose branches
returned different arrays always produced those of one side. Allocate a
separate region per array, copy or merge as needed, and allocate the arrays
used by a callable in that callable.
---
 src/array.cpp      | 109 ++++++++++++++++++++++++++++-----------------
 src/eval.cpp       |   9 +---
 src/llvm_array.cpp |  65 ++++++++++++++++++++++-----
 src/llvm_array.h   |   8 +++-
 src/llvm_eval.cpp  |  23 +++++-----
 5 files changed, 143 insertions(+), 71 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index cc027db..8ffa004 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -120,9 +120,9 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
         uint64_t zero = 0;
         return jitc_var_literal(backend, (VarType) jitc_var(source)->type,
                                 &zero, 1, 0);
-    } else if ((vo->is_literal() || vo->size == 1) &&
-               (vm->kind == (uint32_t) VarKind::DefaultMask ||
-                vm->kind == (uint32_t) VarKind::CallMask)) {
+    } else if ((vm->kind == (uint32_t) VarKind::DefaultMask &&
+                (vo->is_literal() || vo->size == 1)) ||
+               (vm->kind == (uint32_t) VarKind::CallMask && vo->is_literal())) {
         // When we know that the read is always from a uniform location, we
         // can remove any default masking, which slightly improves code generation
         uint64_t one = 1;
@@ -258,9 +258,9 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
         // Elide the write (it is fully masked)
         jitc_var_inc_ref(target);
         return target;
-    } else if ((vo->is_literal() || vo->size == 1) &&
-               (vm->kind == (uint32_t) VarKind::DefaultMask ||
-                vm->kind == (uint32_t) VarKind::CallMask)) {
+    } else if ((vm->kind == (uint32_t) VarKind::DefaultMask &&
+                (vo->is_literal() || vo->size == 1)) ||
+               (vm->kind == (uint32_t) VarKind::CallMask && vo->is_literal())) {
         // When we know that the write is always to a uniform location, we
         // can remove any default masking, which slightly improves code generation
         uint64_t one = 1;
@@ -387,6 +387,29 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
     return op;
 }
 
+/// Update the state of 'parent' following an operation that accesses it
+static void jitc_process_array_access(uint32_t parent_id, bool write, bool output) {
+    Variable *parent = jitc_var(parent_id);
+    ArrayState array_state = (ArrayState) parent->array_state;
+
+    if (array_state == ArrayState::Invalid)
+        jitc_raise("jit_process_array_op(): internal error!");
+
+    if (array_state == ArrayState::Modified)
+        array_state = ArrayState::Conflicted;
+    else if (array_state == ArrayState::Clean && write)
+        array_state = ArrayState::Modified;
+
+    if (output)
+        array_state = ArrayState::Conflicted;
+
+    parent->array_state = (uint32_t) array_state;
+    if (parent->kind == (uint32_t) VarKind::ArrayWrite) {
+        Variable *buf = jitc_var(jitc_array_buffer(parent_id));
+        buf->array_state = (uint32_t) array_state;
+    }
+}
+
 void jitc_process_array_op(VarKind kind, Variable *v) {
     // This function evolves a simple state machine that elides unnecessary
     // array copies. For context, a 'write' operation performed via the
@@ -398,44 +421,48 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
     // original array is marked as 'conflicted', which means that any subsequent
     // writes to it must make a copy.
     //
-    if (v->is_array()) {
-        v->array_state = (uint32_t) ArrayState::Clean;
-
-        if (kind == VarKind::Array)
+    switch (kind) {
+        case VarKind::Array:
+        case VarKind::ArrayInit:
+        case VarKind::ArrayWrite:
+        case VarKind::ArraySelect:
+        case VarKind::ArrayPhi:
+            v->array_state = (uint32_t) ArrayState::Clean;
+            break;
+
+        case VarKind::Evaluated:
+            if (v->is_array())
+                v->array_state = (uint32_t) ArrayState::Clean;
             return;
-    }
-
-    uint32_t parent_id = v->dep[0];
-    Variable *parent = jitc_var(parent_id);
 
-    ArrayState array_state = (ArrayState) parent->array_state;
-
-    if (kind == VarKind::ArrayWrite || kind == VarKind::ArrayInit) {
-        switch (array_state) {
-            case ArrayState::Clean:      array_state = ArrayState::Modified; break;
-            case ArrayState::Modified:
-            case ArrayState::Conflicted: array_state = ArrayState::Conflicted; break;
-            default: break;
-        }
-        if (v->output_flag)
-            array_state = ArrayState::Conflicted;
-    } else if (kind == VarKind::ArrayRead || kind == VarKind::ArrayPhi) {
-        switch (array_state) {
-            case ArrayState::Clean:      array_state = ArrayState::Clean; break;
-            case ArrayState::Modified:
-            case ArrayState::Conflicted: array_state = ArrayState::Conflicted; break;
-            default: break;
-        }
-    } else {
-        jitc_raise("jit_process_array_op(): internal error! (1)");
+        default:
+            break;
     }
 
-    if (array_state == ArrayState::Invalid)
-        jitc_raise("jit_process_array_op(): internal error! (2)");
-
-    parent->array_state = (uint32_t) array_state;
-    if (parent->kind == (uint32_t) VarKind::ArrayWrite) {
-        Variable *buf = jitc_var(jitc_array_buffer(parent_id));
-        buf->array_state = (uint32_t) array_state;
+    switch (kind) {
+        case VarKind::ArrayInit:
+        case VarKind::ArrayWrite:
+            jitc_process_array_access(v->dep[0], true, v->output_flag);
+            break;
+
+        case VarKind::ArrayRead:
+            jitc_process_array_access(v->dep[0], false, false);
+            break;
+
+        case VarKind::ArraySelect:
+            jitc_process_array_access(v->dep[1], false, false);
+            jitc_process_array_access(v->dep[2], false, false);
+            break;
+
+        case VarKind::ArrayPhi:
+            // The result may take over the storage region of its inputs, which
+            // makes it subject to subsequent modifications
+            jitc_process_array_access(v->dep[0], true, false);
+            if (v->dep[2] && v->dep[1] != v->dep[0]) // Conditional
+                jitc_process_array_access(v->dep[1], true, false);
+            break;
+
+        default:
+            break;
     }
 }
diff --git a/src/eval.cpp b/src/eval.cpp
index 93740fd..c0a4e62 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -456,13 +456,7 @@ void jitc_assemble(ThreadState *ts, ScheduledGroup group) {
         has_call |= (kind == VarKind::Call);
 #endif
 
-        if (unlikely(kind == VarKind::Array ||
-                     kind == VarKind::ArrayInit ||
-                     kind == VarKind::ArrayPhi ||
-                     kind == VarKind::ArrayWrite ||
-                     kind == VarKind::ArrayRead)) {
-            jitc_process_array_op(kind, v);
-        }
+        jitc_process_array_op(kind, v);
 
         if (v->is_evaluated()) {
             n_params_in++;
@@ -1284,6 +1278,7 @@ XXH128_hash_t jitc_assemble_func(const CallData *call, uint32_t inst,
     for (ScheduledVariable &sv : schedule) {
         Variable *v = jitc_var(sv.index);
         v->reg_index = n_regs++;
+        jitc_process_array_op((VarKind) v->kind, v);
     }
 
     size_t kernel_offset = buffer.size();
diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index 8bb32a5..2fe6aa1 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -16,15 +16,26 @@
 #include "array.h"
 #include "var.h"
 
-void jitc_llvm_render_array(Variable *v, Variable *pred) {
-    if (pred && pred->array_state != (uint32_t) ArrayState::Conflicted) {
-        v->reg_index = pred->reg_index;
-        return;
-    }
+bool jitc_llvm_needs_array(const Variable *v) {
+    VarKind kind = (VarKind) v->kind;
+    return kind == VarKind::Array ||
+           (kind == VarKind::Evaluated && v->is_array()) ||
+           (kind == VarKind::ArrayPhi && v->dep[2]); // result of a conditional
+}
+
+void jitc_llvm_render_array(const Variable *v) {
+    // This allocation must not be shared with that of another variable: the
+    // storage of a write operation is only needed when it must make a copy.
+    // Unused allocations are removed by LLVM.
     fmt("    %arr_$u = alloca $m, i32 $u, align $A\n",
         v->reg_index, v, jitc_llvm_vector_width * v->array_length, v);
 }
 
+/// Variables with size 1 are uniform, except when they are used by a callable
+static bool array_offset_uniform(const Variable *offset) {
+    return offset->size == 1 && callable_depth == 0;
+}
+
 /**
  * When a read to a variable array has a uniform or scalar index, the
  * following kinds of mask types can be safely ignored.
@@ -88,7 +99,7 @@ void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
     if (v->type == (uint32_t) VarType::Bool)
         ext = "_r";
 
-    if (!offset || offset->size == 1) {
+    if (!offset || array_offset_uniform(offset)) {
         // Scalar/literal offset case: we can avoid a gather operation
         if (offset) {
             fmt_intrinsic("declare i32 @llvm.vector.reduce.umax.v$wi32(<$w x i32>)");
@@ -264,11 +275,15 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
     if (copy) {
         target_buffer = jitc_array_buffer(v)->reg_index;
 
+        // Name the temporaries after the storage region
+        uint32_t reg_index = v->reg_index;
+        v->reg_index = target_buffer;
         fmt("    $v_src = getelementptr inbounds $m, ptr %arr_$u, i64 0\n"
             "    $v_dst = getelementptr inbounds $m, ptr %arr_$u, i64 0\n",
             v, v, target->reg_index,
             v, v, target_buffer);
         jitc_llvm_render_array_copy(v);
+        v->reg_index = reg_index;
     }
 
     const char *ext = "";
@@ -278,7 +293,7 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
         ext = "_e";
     }
 
-    if (!offset || offset->size == 1) {
+    if (!offset || array_offset_uniform(offset)) {
         // Scalar/literal offset case: we can avoid a scatter operation
         if (offset) {
             fmt_intrinsic("declare i32 @llvm.vector.reduce.umax.v$wi32(<$w x i32>)");
@@ -407,7 +422,12 @@ void jitc_llvm_render_array_memcpy_in(const Variable *v) {
     jitc_llvm_render_array_copy(v, v->size == 1);
 }
 
-void jitc_llvm_render_array_memcpy_out(const Variable *v) {
+void jitc_llvm_render_array_memcpy_out(Variable *v, uint32_t reg_index) {
+    // Several variables can refer to the same storage region: use the
+    // variable's original register index to obtain unique names
+    uint32_t src_reg_index = v->reg_index;
+    v->reg_index = reg_index;
+
     fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
          "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
          "    $v_p3 = mul i64 %index, $u\n"
@@ -417,13 +437,16 @@ void jitc_llvm_render_array_memcpy_out(const Variable *v) {
         v, v,
         v, v->array_length,
         v, v, v, v,
-        v, v, v->reg_index
+        v, v, src_reg_index
     );
     jitc_llvm_render_array_copy(v);
+
+    v->reg_index = src_reg_index;
 }
 
-void jitc_llvm_render_array_select(Variable *v, Variable *mask, Variable *t, Variable *f) {
-    uint32_t reg_index = jitc_array_buffer(v)->reg_index;
+static void jitc_llvm_render_array_merge(Variable *v, const Variable *mask,
+                                         const Variable *t, const Variable *f,
+                                         uint32_t reg_index) {
     v->reg_index = reg_index;
 
     fmt("    br label %l_$u_pre\n\n"
@@ -460,3 +483,23 @@ void jitc_llvm_render_array_select(Variable *v, Variable *mask, Variable *t, Var
         reg_index
     );
 }
+
+void jitc_llvm_render_array_select(Variable *v, Variable *mask, Variable *t, Variable *f) {
+    jitc_llvm_render_array_merge(v, mask, t, f, jitc_array_buffer(v)->reg_index);
+}
+
+void jitc_llvm_render_array_phi(Variable *v, const Variable *a0,
+                                const Variable *a1, const Variable *a2) {
+    // When the branches of a conditional stored their result in different
+    // locations, or when they are still needed in their current form, then
+    // merge them into the storage region of the 'phi' variable
+    if (a2 && (a0->reg_index != a1->reg_index ||
+               a0->array_state == (uint32_t) ArrayState::Conflicted ||
+               a1->array_state == (uint32_t) ArrayState::Conflicted)) {
+        const Variable *cond_start = jitc_var(a2->dep[0]);
+        jitc_llvm_render_array_merge(v, jitc_var(cond_start->dep[0]), a1, a0,
+                                     v->reg_index);
+    } else {
+        v->reg_index = a0->reg_index;
+    }
+}
diff --git a/src/llvm_array.h b/src/llvm_array.h
index cd0ff2b..594e28b 100644
--- a/src/llvm_array.h
+++ b/src/llvm_array.h
@@ -10,7 +10,9 @@
 
 struct Variable;
 
-extern void jitc_llvm_render_array(Variable *v, Variable *pred);
+/// Does this variable require a storage region within the kernel?
+extern bool jitc_llvm_needs_array(const Variable *v);
+extern void jitc_llvm_render_array(const Variable *v);
 extern void jitc_llvm_render_array_init(Variable *v, Variable *pred,
                                         Variable *value);
 extern void jitc_llvm_render_array_read(Variable *v, Variable *source,
@@ -20,5 +22,7 @@ extern void jitc_llvm_render_array_write(Variable *v, Variable *target,
                                          Variable *offset);
 extern void jitc_llvm_render_array_select(Variable *v, Variable *mask,
                                           Variable *t, Variable *f);
+extern void jitc_llvm_render_array_phi(Variable *v, const Variable *a0,
+                                       const Variable *a1, const Variable *a2);
 extern void jitc_llvm_render_array_memcpy_in(const Variable *v);
-extern void jitc_llvm_render_array_memcpy_out(const Variable *v);
+extern void jitc_llvm_render_array_memcpy_out(Variable *v, uint32_t reg_index);
diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index 9e90dd0..5459616 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -82,14 +82,9 @@ void jitc_llvm_assemble(ThreadState *ts, ScheduledGroup group) {
         "entry:\n");
 
     for (uint32_t gi = group.start; gi != group.end; ++gi) {
-        uint32_t index = schedule[gi].index;
-        Variable *v = jitc_var(index);
-        VarKind kind = (VarKind) v->kind;
-
-        if (!(kind == VarKind::Array || (kind == VarKind::Evaluated && v->is_array())))
-            break;
-
-        jitc_llvm_render_array(v, v->dep[0] ? jitc_var(v->dep[0]) : nullptr);
+        const Variable *v = jitc_var(schedule[gi].index);
+        if (jitc_llvm_needs_array(v))
+            jitc_llvm_render_array(v);
     }
 
     put("    br label %body\n"
@@ -105,6 +100,7 @@ void jitc_llvm_assemble(ThreadState *ts, ScheduledGroup group) {
         VarKind kind = (VarKind) v->kind;
         ParamType ptype = (ParamType) v->param_type;
         uint32_t size = v->size;
+        uint32_t reg_index = v->reg_index;
 
         if (unlikely(print_labels && v->extra)) {
             const char *label = jitc_var_label(index);
@@ -189,7 +185,7 @@ void jitc_llvm_assemble(ThreadState *ts, ScheduledGroup group) {
                 fmt("    store $M $v$s, ptr $v_p3, align $A, !alias.scope !2, !noalias !2, !nontemporal !3\n",
                     v, v, ext, v, v);
             } else {
-                jitc_llvm_render_array_memcpy_out(v);
+                jitc_llvm_render_array_memcpy_out(v, reg_index);
             }
         }
     }
@@ -377,6 +373,13 @@ void jitc_llvm_assemble_func(const CallData *call, uint32_t inst) {
 
     alloca_size = alloca_align = -1;
 
+    // Allocate memory for variable arrays
+    for (const ScheduledVariable &sv : schedule) {
+        const Variable *v = jitc_var(sv.index);
+        if (jitc_llvm_needs_array(v))
+            jitc_llvm_render_array(v);
+    }
+
     // Bind this instance's data slots so jitc_call_slot_rel_offset() resolves them O(1)
     jitc_call_bind_slots(call, inst);
 
@@ -1232,7 +1235,7 @@ static void jitc_llvm_render(Variable *v) {
             break;
 
         case VarKind::ArrayPhi:
-            v->reg_index = a0->reg_index;
+            jitc_llvm_render_array_phi(v, a0, a1, a2);
             break;
 
         case VarKind::CondStart: {
-- 
2.43.0


From e2de5458f5c5255ea19ff7c991e0b46ce34060d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 54/62] fix: loops with variable arrays as state returned wrong
 contents

The loop state aliased the storage region of the input array, which was then
modified even when it was still needed. Writes within the loop could make a
copy that was not carried over to the next iteration, and the state of the
array operations was not reset when a loop was compiled a second time. Give
arrays in the loop state a separate storage region when needed, and update it
at the end of each iteration.
---
 src/array.cpp      | 48 +++++++++++++++++++++++++++++++++++--------
 src/array.h        |  3 +++
 src/eval.cpp       | 13 ++++++++++++
 src/llvm_array.cpp | 51 +++++++++++++++++++++++++++++++++++++++++-----
 src/llvm_array.h   |  4 ++++
 src/llvm_eval.cpp  |  7 ++++---
 src/loop.cpp       |  1 +
 7 files changed, 111 insertions(+), 16 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 8ffa004..fab82f3 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -387,15 +387,22 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
     return op;
 }
 
+/// Scopes of the loops surrounding the operation that is being processed
+static drjit::vector<uint32_t> array_loop_scopes;
+
+void jitc_process_array_reset() { array_loop_scopes.clear(); }
+
 /// Update the state of 'parent' following an operation that accesses it
-static void jitc_process_array_access(uint32_t parent_id, bool write, bool output) {
+static void jitc_process_array_access(uint32_t parent_id, bool write, bool output,
+                                      uint32_t loop_scope) {
     Variable *parent = jitc_var(parent_id);
     ArrayState array_state = (ArrayState) parent->array_state;
 
     if (array_state == ArrayState::Invalid)
         jitc_raise("jit_process_array_op(): internal error!");
 
-    if (array_state == ArrayState::Modified)
+    // Loop iterations must not modify arrays that were defined before the loop
+    if (array_state == ArrayState::Modified || (write && parent->scope < loop_scope))
         array_state = ArrayState::Conflicted;
     else if (array_state == ArrayState::Clean && write)
         array_state = ArrayState::Modified;
@@ -430,6 +437,20 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
             v->array_state = (uint32_t) ArrayState::Clean;
             break;
 
+        case VarKind::LoopPhi:
+            if (!v->is_array())
+                return;
+            v->array_state = (uint32_t) ArrayState::Clean;
+            break;
+
+        case VarKind::LoopStart:
+            array_loop_scopes.push_back(v->scope);
+            return;
+
+        case VarKind::LoopEnd:
+            array_loop_scopes.pop_back();
+            return;
+
         case VarKind::Evaluated:
             if (v->is_array())
                 v->array_state = (uint32_t) ArrayState::Clean;
@@ -439,27 +460,38 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
             break;
     }
 
+    size_t n_loops = array_loop_scopes.size();
+    uint32_t loop_scope = n_loops ? array_loop_scopes[n_loops - 1] : 0;
+
     switch (kind) {
         case VarKind::ArrayInit:
         case VarKind::ArrayWrite:
-            jitc_process_array_access(v->dep[0], true, v->output_flag);
+            jitc_process_array_access(v->dep[0], true, v->output_flag, loop_scope);
             break;
 
         case VarKind::ArrayRead:
-            jitc_process_array_access(v->dep[0], false, false);
+            jitc_process_array_access(v->dep[0], false, false, loop_scope);
             break;
 
         case VarKind::ArraySelect:
-            jitc_process_array_access(v->dep[1], false, false);
-            jitc_process_array_access(v->dep[2], false, false);
+            jitc_process_array_access(v->dep[1], false, false, loop_scope);
+            jitc_process_array_access(v->dep[2], false, false, loop_scope);
+            break;
+
+        case VarKind::LoopPhi:
+            // The loop may take over the storage region of the array, unless
+            // this would affect the next iteration of a surrounding loop
+            jitc_process_array_access(
+                v->dep[3], true, false,
+                n_loops > 1 ? array_loop_scopes[n_loops - 2] : 0);
             break;
 
         case VarKind::ArrayPhi:
             // The result may take over the storage region of its inputs, which
             // makes it subject to subsequent modifications
-            jitc_process_array_access(v->dep[0], true, false);
+            jitc_process_array_access(v->dep[0], true, false, loop_scope);
             if (v->dep[2] && v->dep[1] != v->dep[0]) // Conditional
-                jitc_process_array_access(v->dep[1], true, false);
+                jitc_process_array_access(v->dep[1], true, false, loop_scope);
             break;
 
         default:
diff --git a/src/array.h b/src/array.h
index bd8384f..e371a61 100644
--- a/src/array.h
+++ b/src/array.h
@@ -36,3 +36,6 @@ extern const Variable *jitc_array_buffer(const Variable *v);
 
 /// Evolve array state machine during jitc_assemble()
 extern void jitc_process_array_op(VarKind kind, Variable *v);
+
+/// Reset the state maintained by the above function
+extern void jitc_process_array_reset();
diff --git a/src/eval.cpp b/src/eval.cpp
index c0a4e62..097df95 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -182,6 +182,18 @@ static void jitc_var_traverse(uint32_t size, uint32_t index, uint32_t depth = 0)
             jitc_var_traverse(size, jitc_array_buffer(index), depth);
             break;
 
+        case VarKind::ArrayPhi:
+            if (!v->dep[2]) { // loop
+                LoopData *loop =
+                    (LoopData *) jitc_var(jitc_var(v->dep[1])->dep[0])->data;
+                if (!loop)
+                    jitc_raise("jit_var_traverse(): internal error: "
+                               "computation references variables from a loop "
+                               "that was optimized away!");
+                jitc_var_traverse(size, loop->inner_in[v->literal], depth);
+            }
+            break;
+
         case VarKind::LoopPhi: {
                 LoopData *loop = (LoopData *) jitc_var(v->dep[0])->data;
                 if (!loop)
@@ -398,6 +410,7 @@ void jitc_assemble(ThreadState *ts, ScheduledGroup group) {
     }
 
     (void) timer();
+    jitc_process_array_reset();
 
     // Set while scanning the schedule below if this kernel reads from the
     // shared call buffer, which covers both indirect calls and getters (used
diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index 2fe6aa1..e857918 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -15,11 +15,13 @@
 #include "llvm_eval.h"
 #include "array.h"
 #include "var.h"
+#include "loop.h"
 
 bool jitc_llvm_needs_array(const Variable *v) {
     VarKind kind = (VarKind) v->kind;
     return kind == VarKind::Array ||
            (kind == VarKind::Evaluated && v->is_array()) ||
+           (kind == VarKind::LoopPhi && v->is_array()) ||
            (kind == VarKind::ArrayPhi && v->dep[2]); // result of a conditional
 }
 
@@ -263,6 +265,15 @@ static void jitc_llvm_render_array_copy(const Variable *v, bool broadcast = fals
     );
 }
 
+/// Copy the contents of the array 'source' to the storage region of 'v'
+static void jitc_llvm_render_array_duplicate(const Variable *v, const Variable *source) {
+    fmt("    $v_src = getelementptr inbounds $m, ptr %arr_$u, i64 0\n"
+        "    $v_dst = getelementptr inbounds $m, ptr %arr_$u, i64 0\n",
+        v, v, source->reg_index,
+        v, v, v->reg_index);
+    jitc_llvm_render_array_copy(v);
+}
+
 void jitc_llvm_render_array_write(Variable *v, Variable *target,
                                   Variable *value, Variable *mask,
                                   Variable *offset) {
@@ -278,11 +289,7 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
         // Name the temporaries after the storage region
         uint32_t reg_index = v->reg_index;
         v->reg_index = target_buffer;
-        fmt("    $v_src = getelementptr inbounds $m, ptr %arr_$u, i64 0\n"
-            "    $v_dst = getelementptr inbounds $m, ptr %arr_$u, i64 0\n",
-            v, v, target->reg_index,
-            v, v, target_buffer);
-        jitc_llvm_render_array_copy(v);
+        jitc_llvm_render_array_duplicate(v, target);
         v->reg_index = reg_index;
     }
 
@@ -499,7 +506,41 @@ void jitc_llvm_render_array_phi(Variable *v, const Variable *a0,
         const Variable *cond_start = jitc_var(a2->dep[0]);
         jitc_llvm_render_array_merge(v, jitc_var(cond_start->dep[0]), a1, a0,
                                      v->reg_index);
+    } else if (!a2) { // Loop
+        const LoopData *ld = (const LoopData *) jitc_var(a1->dep[0])->data;
+        v->reg_index = jitc_var(ld->inner_in[v->literal])->reg_index;
     } else {
         v->reg_index = a0->reg_index;
     }
 }
+
+/// Is this a loop state variable that represents an array used by the kernel?
+static bool is_array_phi(const Variable *v) {
+    return (VarKind) v->kind == VarKind::LoopPhi && v->is_array() && v->reg_index;
+}
+
+void jitc_llvm_render_array_loop_start(const LoopData *ld) {
+    // Take over the storage region of the inputs or create a copy
+    for (size_t i = 0; i < ld->size; ++i) {
+        Variable *phi = jitc_var(ld->inner_in[i]);
+        if (!is_array_phi(phi))
+            continue;
+        const Variable *source = jitc_var(phi->dep[3]);
+        if (source->array_state == (uint32_t) ArrayState::Conflicted)
+            jitc_llvm_render_array_duplicate(phi, source);
+        else
+            phi->reg_index = source->reg_index;
+    }
+}
+
+void jitc_llvm_render_array_loop_end(const LoopData *ld, const Variable *active) {
+    // Update the state if the final value of an iteration is stored elsewhere
+    for (size_t i = 0; i < ld->size; ++i) {
+        Variable *phi = jitc_var(ld->inner_in[i]);
+        if (!is_array_phi(phi))
+            continue;
+        const Variable *out = jitc_var(ld->inner_out[i]);
+        if (out->reg_index != phi->reg_index)
+            jitc_llvm_render_array_merge(phi, active, out, phi, phi->reg_index);
+    }
+}
diff --git a/src/llvm_array.h b/src/llvm_array.h
index 594e28b..9d8ff78 100644
--- a/src/llvm_array.h
+++ b/src/llvm_array.h
@@ -9,6 +9,7 @@
 */
 
 struct Variable;
+struct LoopData;
 
 /// Does this variable require a storage region within the kernel?
 extern bool jitc_llvm_needs_array(const Variable *v);
@@ -24,5 +25,8 @@ extern void jitc_llvm_render_array_select(Variable *v, Variable *mask,
                                           Variable *t, Variable *f);
 extern void jitc_llvm_render_array_phi(Variable *v, const Variable *a0,
                                        const Variable *a1, const Variable *a2);
+extern void jitc_llvm_render_array_loop_start(const LoopData *ld);
+extern void jitc_llvm_render_array_loop_end(const LoopData *ld,
+                                            const Variable *active);
 extern void jitc_llvm_render_array_memcpy_in(const Variable *v);
 extern void jitc_llvm_render_array_memcpy_out(Variable *v, uint32_t reg_index);
diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index 5459616..917b082 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -1183,6 +1183,7 @@ static void jitc_llvm_render(Variable *v) {
 
         case VarKind::LoopStart: {
                 const LoopData *ld = (LoopData *) v->data;
+                jitc_llvm_render_array_loop_start(ld);
                 fmt("    br label %l_$u_before\n\n"
                     "l_$u_before:\n"
                     "    br label %l_$u_cond\n\n"
@@ -1203,6 +1204,8 @@ static void jitc_llvm_render(Variable *v) {
             break;
 
         case VarKind::LoopEnd:
+            jitc_llvm_render_array_loop_end((const LoopData *) a0->data,
+                                            jitc_var(a1->dep[1]));
             fmt("    br label %l_$u_end\n\n"
                 "l_$u_end:\n"
                 "    br label %l_$u_cond\n\n"
@@ -1212,9 +1215,7 @@ static void jitc_llvm_render(Variable *v) {
             break;
 
         case VarKind::LoopPhi: {
-                if (v->is_array()) {
-                    v->reg_index = a3->reg_index;
-                } else {
+                if (!v->is_array()) { // Arrays: see LoopStart/LoopEnd
                     const LoopData *ld = (LoopData *) a0->data;
                     size_t l = (size_t) v->literal;
                     Variable *inner_in  = jitc_var(ld->inner_in[l]),
diff --git a/src/loop.cpp b/src/loop.cpp
index 3f27f1d..b7c9fe7 100644
--- a/src/loop.cpp
+++ b/src/loop.cpp
@@ -343,6 +343,7 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
             v3.size = std::max(v2->size, size);
             v3.array_state = (uint32_t) ArrayState::Clean;
             v3.array_length = (uint16_t) array_length;
+            v3.literal = (uint64_t) i;
             v3.dep[0] = index;
             v3.dep[1] = loop_end;
             jitc_var_inc_ref(loop_end);
-- 
2.43.0


From 05aae7aa7ccb2450cb2b981b0d299fe4018c5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 55/62] fix: writing to a view created by jit_var_shrink()
 modified the original variable

Scatters and writes performed in-place updates of a view when nobody else
referenced it, even though its memory belongs to another variable. Views of
variables with pending side effects did not observe them, and views of
undefined variables accessed freed memory.
---
 src/coop_vec.cpp |  6 ++++--
 src/internal.h   |  2 ++
 src/op.cpp       | 15 ++++++++++-----
 src/var.cpp      |  7 +++----
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index 20200ea..fd5c180 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -605,7 +605,8 @@ uint32_t jitc_coop_vec_accum(uint32_t target_, uint32_t target_size,
     } else {
         const Variable *target_v = jitc_var(target);
         // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-        if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+        if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+            target_v->is_view()) {
             target = steal(jitc_var_copy(target));
             target_v = jitc_var(target);
         }
@@ -698,7 +699,8 @@ uint32_t jitc_coop_vec_outer_product_accum(uint32_t target_,
     } else {
         const Variable *target_v = jitc_var(target);
         // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-        if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+        if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+            target_v->is_view()) {
             target = steal(jitc_var_copy(target));
             target_v = jitc_var(target);
         }
diff --git a/src/internal.h b/src/internal.h
index 2564814..590da01 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -372,6 +372,8 @@ struct alignas(64) Variable {
     // =========================   Helper functions   ==========================
 
     bool is_evaluated() const { return kind == (uint32_t) VarKind::Evaluated; }
+    /// Does this variable refer to the memory region of another variable? (see jit_var_shrink())
+    bool is_view()      const { return is_evaluated() && dep[3] && !is_dirty(); }
     bool is_literal()   const { return kind == (uint32_t) VarKind::Literal; }
     bool is_undefined() const { return kind == (uint32_t) VarKind::Undefined; }
     bool is_node()      const { return (uint32_t) kind > (uint32_t) VarKind::Literal; }
diff --git a/src/op.cpp b/src/op.cpp
index 3efef97..314c0e1 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2478,7 +2478,8 @@ uint32_t jitc_var_scatter_inc(uint32_t *target_p, uint32_t index, uint32_t mask)
     var_info.symbolic |= (flags & (uint32_t) JitFlag::SymbolicScope) != 0;
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-    if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1)
+    if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        target_v->is_view())
         target = steal(jitc_var_copy(target));
 
     void *target_addr = nullptr;
@@ -2591,7 +2592,8 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-    if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+    if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        target_v->is_view()) {
         target = steal(jitc_var_copy(target));
         target_v = jitc_var(target);
     }
@@ -2700,7 +2702,8 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-    if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+    if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        target_v->is_view()) {
         target = steal(jitc_var_copy(target));
         target_v = jitc_var(target);
     }
@@ -3050,7 +3053,8 @@ uint32_t jitc_var_scatter(uint32_t target_, uint32_t value, uint32_t index_,
         target_v = jitc_var(target);
     }
 
-    if (target_v->ref_count > 2 && target_v->ref_count_stashed != 1)
+    if ((target_v->ref_count > 2 && target_v->ref_count_stashed != 1) ||
+        target_v->is_view())
         target = steal(jitc_var_copy(target));
 
     // The backends may employ various strategies to reduce the number of
@@ -3327,7 +3331,8 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     // Check if it is safe to directly write to ``target``.
     // See the original scatter operation for details.
     target_v = jitc_var(target);
-    if (target_v->ref_count > 2 && target_v->ref_count_stashed != 1)
+    if ((target_v->ref_count > 2 && target_v->ref_count_stashed != 1) ||
+        target_v->is_view())
         target = steal(jitc_var_copy(target));
 
     // Infer the ReduceOp parameter (if it is set to ReduceOp::Auto)
diff --git a/src/var.cpp b/src/var.cpp
index 8a9d1a6..0d275e6 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1763,7 +1763,7 @@ uint32_t jitc_var_write(uint32_t index_, size_t offset, const void *src) {
     Variable *v = jitc_var(index);
 
     // Check if it is safe to write directly
-    if (v->ref_count > 2) { // 1 from original array, 1 from jitc_var_data() above
+    if (v->ref_count > 2 || v->is_view()) { // 1 from original array, 1 from jitc_var_data() above
         index = steal(jitc_var_copy(index));
 
         // The above operation may have invalidated 'v'
@@ -1983,11 +1983,10 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
         result = jitc_var_literal(backend, vt, &v->literal, size, 0);
     } else {
         void *dst_addr = nullptr;
-        Ref dst = steal(jitc_var_data(index, false, &dst_addr));
+        Ref dst = steal(jitc_var_data(index, true, &dst_addr));
 
         result = jitc_var_mem_map(backend, vt, dst_addr, size, false);
-        jitc_var(result)->dep[3] = index;
-        jitc_var_inc_ref(index);
+        jitc_var(result)->dep[3] = dst.release();
     }
 
     jitc_log(Debug, "jit_var_shrink(): %s r%u[%zu] = shrink(r%u)",
-- 
2.43.0


From dbb1c79c84affc72aa0a23bcacd07fd0c82e75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 56/62] fix: operations under a scalar mask accessed memory
 past the end of arrays

jit_var_mask_apply() must re-apply the default mask when the mask at the top
of the stack is a scalar that is broadcast to a larger size: the lanes past the
end of the array are otherwise active once the scalar mask is evaluated.
---
 src/var.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 0d275e6..2e9b3ca 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2249,9 +2249,14 @@ uint32_t jitc_var_mask_apply(uint32_t index, uint32_t size) {
         Ref default_mask = steal(jitc_var_mask_default(backend, size));
         if (!mask) {
             mask = borrow(default_mask);
-        } else if (jitc_var(mask)->is_evaluated() && size == 1) {
-            // Scalar evaluated parameters get broadcasted, we need to re-apply the default mask
-            mask = steal(jitc_var_and(mask, default_mask));
+        } else {
+            // Scalar evaluated parameters get broadcasted, we need to re-apply
+            // the default mask. This also concerns scalars that might still be
+            // evaluated before the operation using this mask.
+            const Variable *v2 = jitc_var(mask);
+            if (size == 1 ? v2->is_evaluated()
+                          : (v2->size == 1 && !v2->symbolic))
+                mask = steal(jitc_var_and(mask, default_mask));
         }
     }
 
-- 
2.43.0


From a02f09fed62dd382189b7b8c2abcea345e62e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 57/62] fix: rejected conditionals left variables behind

---
 src/cond.cpp | 64 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index 25ba54b..fc1b93d 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -57,6 +57,9 @@ uint32_t jitc_var_cond_append(uint32_t index, const uint32_t *rv, size_t count)
     CondData *cd = (CondData *) v->data;
     JitBackend backend = (JitBackend) v->backend;
 
+    if (cd->labels[0] && !cd->labels[1] && count != cd->indices_t.size())
+        jitc_raise("jitc_var_cond_append(): inconsistent number of return values!");
+
     Variable v2;
     v2.kind = (uint32_t) (cd->labels[0] ? VarKind::CondEnd : VarKind::CondMid);
     v2.type = (uint32_t) VarType::Void;
@@ -82,8 +85,6 @@ uint32_t jitc_var_cond_append(uint32_t index, const uint32_t *rv, size_t count)
         se.resize(se.size() - se_count);
     } else if (!cd->labels[1]) {
         cd->labels[1] = index_2;
-        if (count != cd->indices_t.size())
-            jitc_raise("jitc_var_cond_append(): inconsistent number of return values!");
         cd->indices_f = std::vector<uint32_t>(rv, rv + count);
         for (uint32_t index_f: cd->indices_f)
             jitc_var_inc_ref(index_f);
@@ -104,6 +105,43 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
     uint32_t i_cond = v->dep[0];
     bool symbolic = v->symbolic;
 
+    // Check the inputs first, so that a failure does not leave variables behind
+    for (size_t i = 0; i < cd->indices_t.size(); ++i) {
+        uint32_t i_t = cd->indices_t[i], i_f = cd->indices_f[i];
+        if (i_t == 0 || i_f == 0)
+            jitc_raise("jit_var_cond(): return variable %zu is "
+                       "uninitialized/partially initialized (r%u, r%u).",
+                       i, i_t, i_f);
+
+        const Variable *v_t = jitc_var(i_t),
+                       *v_f = jitc_var(i_f);
+
+        if (v_f->is_array() || i_t == i_f || v_f->is_dirty() ||
+            (v_f->is_literal() && v_t->is_literal() &&
+             v_f->literal == v_t->literal))
+            continue;
+
+        uint32_t l1 = size, l2 = v_t->size, l3 = v_f->size,
+                 lm = std::max(std::max(l1, l2), l3);
+
+        if ((l1 != lm && l1 != 1) || (l2 != lm && l2 != 1) ||
+            (l3 != lm && l3 != 1))
+            jitc_raise("jit_var_cond(): operands r%u, r%u, and r%u have "
+                       "incompatible sizes! (%u, %u, %u)",
+                       i_cond, i_t, i_f, l1, l2, l3);
+    }
+
+    for (const std::vector<uint32_t> *list : { &cd->se_t, &cd->se_f }) {
+        for (uint32_t index_se : *list) {
+            uint32_t size_se = jitc_var(index_se)->size;
+            if (size != size_se && size_se != 1 && size != 1)
+                jitc_raise(
+                    "jitc_var_cond_end(): size of side effect (%u) is "
+                    "incompatible with size of loop condition (%u).",
+                    size_se, size);
+        }
+    }
+
     Variable v2;
     v2.kind = (uint32_t) VarKind::CondOutput;
     v2.size = size;
@@ -116,11 +154,6 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
 
     for (size_t i = 0; i < cd->indices_t.size(); ++i) {
         uint32_t i_t = cd->indices_t[i], i_f = cd->indices_f[i];
-        if (i_t == 0 || i_f == 0)
-            jitc_raise("jit_var_cond(): return variable %zu is "
-                       "uninitialized/partially initialized (r%u, r%u).",
-                       i, i_t, i_f);
-
         Variable *v_t = jitc_var(i_t),
                  *v_f = jitc_var(i_f);
         VarType vt = (VarType) v_t->type;
@@ -165,17 +198,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             continue;
         }
 
-        uint32_t l1 = size, l2 = v_t->size, l3 = v_f->size,
-                 lm = std::max(std::max(l1, l2), l3);
-
-        if ((l1 != lm && l1 != 1) || (l2 != lm && l2 != 1) ||
-            (l3 != lm && l3 != 1)) {
-            for (size_t j = 0; j < i; ++j)
-                jitc_var_dec_ref(rv_out[j]);
-            jitc_raise("jit_var_cond(): operands r%u, r%u, and r%u have "
-                       "incompatible sizes! (%u, %u, %u)",
-                       i_cond, i_t, i_f, l1, l2, l3);
-        }
+        uint32_t lm = std::max(std::max(size, v_t->size), v_f->size);
 
         v2.dep[0] = i_t;
         v2.dep[1] = i_f;
@@ -200,11 +223,6 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
         auto traverse_se = [backend, size, pred, symbolic](std::vector<uint32_t> &list) {
             for (uint32_t index: list) {
                 Variable *v2 = jitc_var(index);
-                if (size != v2->size && v2->size != 1 && size != 1)
-                    jitc_raise(
-                        "jitc_var_cond_end(): size of side effect (%u) is "
-                        "incompatible with size of loop condition (%u).",
-                        v2->size, size);
                 Variable v_se;
                 v_se.kind = (uint32_t) VarKind::Nop;
                 v_se.type = (uint32_t) VarType::Void;
-- 
2.43.0


From e0e287263a4df6b084136ba7ea1b12e3c06f4a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 58/62] fix: a loop state variable that becomes uninitialized
 raised no exception but aborted

---
 src/loop.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/loop.cpp b/src/loop.cpp
index b7c9fe7..092a391 100644
--- a/src/loop.cpp
+++ b/src/loop.cpp
@@ -162,6 +162,13 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
     Variable *cond_v = jitc_var(cond);
     JitBackend backend = (JitBackend) cond_v->backend;
 
+    for (size_t i = 0; i < ld->size; ++i) {
+        if (!indices[i])
+            jitc_raise(
+                "jit_var_loop_end(): loop state variable %zu has become "
+                "uninitialized (i.e., it now has size 0)", i);
+    }
+
     // Determine the size of variables that are processed by this loop
     uint32_t size = jitc_var(cond)->size;
     {
@@ -257,11 +264,6 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
         uint32_t active = cond_v->dep[1];
         for (size_t i = 0; i < ld->size; ++i) {
             uint32_t index = indices[i];
-            if (!index)
-                jitc_raise(
-                    "jit_var_loop_end(): loop state variable %zu has become "
-                    "uninitialized (i.e., it now has size 0)", i);
-
             const Variable *v1 = jitc_var(ld->inner_in[i]);
             Variable *v2 = jitc_var(index);
 
-- 
2.43.0


From f7d5199b4cc284c85ee232c1ef7cafc321714bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 59/62] fix: cooperative vectors could be packed from arrays of
 incompatible sizes

---
 src/coop_vec.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index fd5c180..35de4c6 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -98,6 +98,13 @@ uint32_t jitc_coop_vec_pack(uint32_t n, const uint32_t *in) {
         jitc_log(Debug, "  - entry %u: r%u", i, index);
     }
 
+    for (uint32_t i = 0; i < n; ++i) {
+        uint32_t size = jitc_var(in[i])->size;
+        if (size != 1 && size != v.size)
+            jitc_raise("jit_coop_vec_pack(): inputs have incompatible sizes "
+                       "(%u and %u)!", size, v.size);
+    }
+
     if (is_literal)
         return jitc_coop_vec_literal((JitBackend) v.backend, (VarType) v.type,
                                      &literal, v.size, n);
-- 
2.43.0


From 61ef9e2c1e4ef54694d369d21486b319acce6fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 60/62] fix: abandoning a recording lost pending side effects
 and leaked their variables

---
 src/record_ts.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 9a553b2..0501e2e 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2694,6 +2694,16 @@ static void jitc_record_ts_forget(ThreadState *rts) {
 struct RecordThreadStateGuard {
     RecordThreadState *rts;
     ~RecordThreadStateGuard() {
+        // Hand pending work that wasn't evaluated to the wrapped thread state
+        ThreadState *ts_ = rts->m_internal;
+        ts_->scheduled.insert(ts_->scheduled.end(), rts->scheduled.begin(),
+                              rts->scheduled.end());
+        ts_->side_effects.insert(ts_->side_effects.end(),
+                                 rts->side_effects.begin(),
+                                 rts->side_effects.end());
+        rts->scheduled.clear();
+        rts->side_effects.clear();
+
         jitc_record_ts_forget(rts);
         delete rts;
     }
-- 
2.43.0


From c8fbe26bb2dd2759dbb5f287daca9b85ba3a78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 61/62] fix: replaying jit_var_any_async() and
 jit_var_all_async() returned wrong results

---
 src/record_ts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 0501e2e..58260f4 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1351,7 +1351,8 @@ int Recording::replay_block_reduce_bool(Operation &op) {
     ReplayVariable &in_var = replay_variables[in_info.slot];
     ReplayVariable &out_var = replay_variables[out_info.slot];
 
-    out_var.alloc(backend, 1, VarType::Bool);
+    // The operation produces 4 partial results (see \ref jitc_any_async())
+    out_var.alloc(backend, 4, VarType::UInt8);
 
     uint32_t size = in_var.size(VarType::Bool);
 
-- 
2.43.0


From 7fbdb95564b415d6c0f6884331b15a92ec9be436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 62/62] fix: literal casts of floating point values outside of
 the integer range executed undefined behavior

---
 src/op.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 314c0e1..a01e1ef 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -247,6 +247,24 @@ template <typename Type> uint64_t v2i(Type value) {
     return result;
 }
 
+/* Convert a literal to an integer type. The C++ conversion of floating point
+   values has undefined behavior when the result cannot be represented. Such
+   values wrap around (or become zero, if they do not fit into 64 bits). */
+template <typename Target, typename Value> Target literal_cast(Value value) {
+    if constexpr (!std::is_integral_v<Value>) {
+        double v = (double) value;
+
+        if (v > -0x1p63 && v < 0x1p63)
+            return (Target) (int64_t) v;
+        else if (v >= 0x1p63 && v < 0x1p64)
+            return (Target) (uint64_t) v;
+        else
+            return v == -0x1p63 ? (Target) INT64_MIN : Target(0);
+    } else {
+        return (Target) value;
+    }
+}
+
 template <typename T, typename... Ts> T first(T arg, Ts...) { return arg; }
 
 template <typename Func, typename... Args>
@@ -1902,14 +1920,14 @@ uint32_t jitc_var_cast(uint32_t a0, VarType target_type, int reinterpret) {
             result = jitc_eval_literal(info, [target_type](auto value) -> uint64_t {
                 switch (target_type) {
                     case VarType::Bool:    return v2i((bool) value);
-                    case VarType::Int8:    return v2i((int8_t) value);
-                    case VarType::UInt8:   return v2i((uint8_t) value);
-                    case VarType::Int16:   return v2i((int16_t) value);
-                    case VarType::UInt16:  return v2i((uint16_t) value);
-                    case VarType::Int32:   return v2i((int32_t) value);
-                    case VarType::UInt32:  return v2i((uint32_t) value);
-                    case VarType::Int64:   return v2i((int64_t) value);
-                    case VarType::UInt64:  return v2i((uint64_t) value);
+                    case VarType::Int8:    return v2i(literal_cast<int8_t>(value));
+                    case VarType::UInt8:   return v2i(literal_cast<uint8_t>(value));
+                    case VarType::Int16:   return v2i(literal_cast<int16_t>(value));
+                    case VarType::UInt16:  return v2i(literal_cast<uint16_t>(value));
+                    case VarType::Int32:   return v2i(literal_cast<int32_t>(value));
+                    case VarType::UInt32:  return v2i(literal_cast<uint32_t>(value));
+                    case VarType::Int64:   return v2i(literal_cast<int64_t>(value));
+                    case VarType::UInt64:  return v2i(literal_cast<uint64_t>(value));
                     case VarType::Float16: return v2i((drjit::half) value);
                     case VarType::Float32: return v2i((float) value);
                     case VarType::Float64: return v2i((double) value);
-- 
2.43.0

