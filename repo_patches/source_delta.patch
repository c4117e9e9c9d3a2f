From 058bf9ecc4b508634c071f69f020d1c5455f42a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:31 +0000
Subject: [PATCH 01/30] fix: apply the default VIR_CHECK_PRECONDITIONS=3 to the
 run-time action

invoke_ub tested VIR_CHECK_PRECONDITIONS before its default was defined, so
that the documented default (trap) compiled to unreachable code instead.
---
 vir/simd.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 5f2d6a8..26817fe 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -37,6 +37,23 @@
 #endif
 #endif
 
+/* VIR_CHECK_PRECONDITIONS:
+ * 0: Compile-time warning, invoke UB on run-time failure.
+ * 1: Compile-time   error, invoke UB on run-time failure.
+ * 2: Compile-time warning, trap on run-time failure.
+ * 3: Compile-time   error, trap on run-time failure.
+ * 4: Compile-time warning, print error and abort on run-time failure.
+ * 5: Compile-time   error, print error and abort on run-time failure.
+ */
+
+#ifndef VIR_CHECK_PRECONDITIONS
+#define VIR_CHECK_PRECONDITIONS 3
+#endif
+
+#if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
+#warning "Invalid value for VIR_CHECK_PRECONDITIONS."
+#endif
+
 namespace vir::detail
 {
   [[noreturn]] VIR_GNU_COLD VIR_ALWAYS_INLINE void
@@ -83,23 +100,6 @@ namespace vir::detail
 #define VIR_SIMD_TOSTRING(x) VIR_SIMD_TOSTRING_IMPL(x)
 #define VIR_SIMD_LOC __FILE__ ":" VIR_SIMD_TOSTRING(__LINE__) ": "
 
-/* VIR_CHECK_PRECONDITIONS:
- * 0: Compile-time warning, invoke UB on run-time failure.
- * 1: Compile-time   error, invoke UB on run-time failure.
- * 2: Compile-time warning, trap on run-time failure.
- * 3: Compile-time   error, trap on run-time failure.
- * 4: Compile-time warning, print error and abort on run-time failure.
- * 5: Compile-time   error, print error and abort on run-time failure.
- */
-
-#ifndef VIR_CHECK_PRECONDITIONS
-#define VIR_CHECK_PRECONDITIONS 3
-#endif
-
-#if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
-#warning "Invalid value for VIR_CHECK_PRECONDITIONS."
-#endif
-
 #ifdef __GNUC__
 #define VIR_PRETTY_FUNCTION_ __PRETTY_FUNCTION__
 #else
-- 
2.43.0


From 1ed52400e67597ad39a0bdd00ccad7b0dc9c0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:02 +0000
Subject: [PATCH 02/30] fix: include <cstdio> for VIR_CHECK_PRECONDITIONS=4 and
 5

Both levels use std::fprintf and stderr, and did not compile unless <cstdio>
happened to be included before.
---
 vir/simd.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd.h b/vir/simd.h
index 26817fe..2687d2b 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -18,6 +18,7 @@
 
 #include "simd_version.h"
 
+#include <cstdio>  // std::fprintf
 #include <cstdlib> // std::abort
 
 #if __has_include (<experimental/simd>) && !defined VIR_DISABLE_STDX_SIMD \
-- 
2.43.0


From 181fd59aa90e6459859ec5f9c3aed80beba19f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:06 +0000
Subject: [PATCH 03/30] fix: print the violated precondition as an argument,
 not as format string

'distance % size == 0' was pasted into the fprintf format, where '% s' reads a
string argument that was never passed.
---
 vir/simd.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 2687d2b..d54be7d 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -135,8 +135,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -149,8 +149,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #else
@@ -159,8 +159,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -168,8 +168,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #endif
-- 
2.43.0


From 9048eaeb9f328542045fa881b9ee333b3b5e8a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:06 +0000
Subject: [PATCH 04/30] fix: never process more elements than the range has in
 the alignment prologue

With prefer_aligned and a range that ends before the next aligned address,
the prologue accessed memory after the range and the remaining size wrapped.
---
 vir/simd_execution.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 383307b..205ca00 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -595,6 +595,17 @@ case0:
                 return;
               const auto misaligned_by_elements = misaligned_by_bytes / sizeof(T);
               const auto to_process = max_misalignment - misaligned_by_elements;
+              if (to_process > remaining)
+                {
+                  // the range ends before the first aligned address => no aligned chunks
+                  if constexpr (use_aligned_loadstore)
+                    for (; remaining > 0; --remaining)
+                      {
+                        do_prologue(max_misalignment, std::size_t(1));
+                        ((++iterators_to_advance), ...);
+                      }
+                  return;
+                }
               if constexpr (use_aligned_loadstore)
                 do_prologue(max_misalignment, to_process);
               else if (remaining * sizeof(T) > 4000
-- 
2.43.0


From 7a1dd353994d0b1762b73e24af9ec280832a46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:20 +0000
Subject: [PATCH 05/30] fix: rotate<Offset> with negative Offset and a size
 that is not a power of 2

The index was computed modulo an unsigned size.
---
 vir/simd_permute.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 5502830..c691201 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -144,7 +144,10 @@ namespace vir
 
 	VIR_CONSTEVAL int
 	operator()(int i, auto size) const
-	{ return (i + Offset) % size.value; }
+	{
+	  constexpr int n = int(size.value);
+	  return ((i + Offset) % n + n) % n;
+	}
       };
 
     /// Rotate the elements by \p Offset.
-- 
2.43.0


From b8cd33a42508d53f8ec5b078bbcdce7c00e183df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:20 +0000
Subject: [PATCH 06/30] fix: even rotations of 8 floats by a negative or too
 large offset with AVX2

The immediate of the permutation is only valid for 0 <= Offset < 8; in addition
the result type does not need to have the size of the input.
---
 vir/simd_permute.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index c691201..c8360da 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -192,7 +192,7 @@ namespace vir
 #if defined __AVX2__
 	    using v4df [[gnu::vector_size(32)]] = double;
 	    if constexpr (std::same_as<T, float> and std::is_trivially_copyable_v<V>
-			    and sizeof(v4df) == sizeof(V)
+			    and sizeof(v4df) == sizeof(V) and std::same_as<R, V>
 			    and requires {
 			      F::is_even_rotation;
 			      F::Offset;
@@ -201,10 +201,9 @@ namespace vir
 			    })
 	      {
 		const v4df intrin = detail::bit_cast<v4df>(v);
-		constexpr int control = ((F::Offset / 2) << 0)
-					  | (((F::Offset / 2 + 1) % 4) << 2)
-					  | (((F::Offset / 2 + 2) % 4) << 4)
-					  | (((F::Offset / 2 + 3) % 4) << 6);
+		constexpr int o = (F::Offset / 2 % 4 + 4) % 4;
+		constexpr int control = (o << 0) | ((o + 1) % 4 << 2)
+					  | ((o + 2) % 4 << 4) | ((o + 3) % 4 << 6);
 		return detail::bit_cast<R>(__builtin_ia32_permdf256(intrin, control));
 	      }
 #endif
-- 
2.43.0


From d13c762cc9124373f8622b5ba0730a94d3b08a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:20 +0000
Subject: [PATCH 07/30] fix: transform_reduce where the prologue consumes the
 complete range

The epilogue requires at least one leftover element.
---
 vir/simd_execution.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 205ca00..0395420 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1089,7 +1089,8 @@ case0:
               }
             else if constexpr (lo_size > 0)
               {
-                // leftover > 0 by construction
+                if (leftover == 0) // the prologue consumed the whole range
+                  return acc1[0];
                 return simd_transform_reduce_epilogue<lo_size>(
                          acc1, first1, leftover, reduce_op, transform_op, flags, first2...);
               }
-- 
2.43.0


From 0a1a96baad2681d49c8f9661ab9433625191df78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:22 +0000
Subject: [PATCH 08/30] fix: for_each in constant expressions must not process
 the last element twice

Without leftover elements there is nothing to do for the epilogue; with a SIMD
width of 2 it unconditionally processed the last element again.
---
 vir/simd_execution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 0395420..fa1e7e1 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1147,8 +1147,9 @@ case0:
                                                         stdx::element_aligned, detail::no_unroll);
 
           if constexpr (size > 1)
-            detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
-                                                          stdx::element_aligned);
+            if (distance % size)
+              detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
+                                                            stdx::element_aligned);
         }
       else
         {
-- 
2.43.0


From adc9d981b519396c540709bbd3cf5180d9d8d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:47 +0000
Subject: [PATCH 09/30] fix: load/store of simdized tuple-likes whose members
 are not in memory order

The shuffling load and store functions assumed that the first member is at the
lowest address, which does not hold for std::tuple in libstdc++: elements got
mixed up and memory outside of the given range was accessed.
---
 vir/simdize.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/vir/simdize.h b/vir/simdize.h
index a3b7ecd..6933858 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -247,6 +247,24 @@ namespace vir
 	}(std::make_integer_sequence<int, vir::struct_size_v<T>>());
       };
 
+    /** \internal
+     * Determine whether the order of the (flat) members equals their order in memory. This is not
+     * the case for all tuple-like types, notably not for std::tuple in libstdc++.
+     */
+    template <typename T>
+      inline constexpr bool members_in_memory_order_v = not vir::reflectable_struct<T>;
+
+    template <vir::reflectable_struct T>
+      requires std::is_aggregate_v<T>
+      inline constexpr bool members_in_memory_order_v<T>
+	= []<int... Is>(std::integer_sequence<int, Is...>) {
+	  return (members_in_memory_order_v<vir::struct_element_t<Is, T>> and ...);
+	}(std::make_integer_sequence<int, vir::struct_size_v<T>>());
+
+    template <typename T, typename U>
+      inline constexpr bool members_in_memory_order_v<std::pair<T, U>>
+	= members_in_memory_order_v<T> and members_in_memory_order_v<U>;
+
     /** \internal
      * Determine the type of the I-th non-reflectable data member.
      */
@@ -583,6 +601,7 @@ namespace vir
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
 	if (not std::is_constant_evaluated())
 	  if constexpr (N > 1 and sizeof(T) * N == sizeof(base_type) and _flat_member_count >= 2
+			  and detail::members_in_memory_order_v<T>
 			  and std::has_single_bit(unsigned(N)))
 	    {
 	      const std::byte* byte_ptr = reinterpret_cast<const std::byte*>(addr);
@@ -819,6 +838,7 @@ namespace vir
 	  if (not std::is_constant_evaluated())
 	    if constexpr (N > 2 and _flat_member_count >= 2
 			    and sizeof(T) * N == sizeof(base_type)
+			    and detail::members_in_memory_order_v<T>
 			    and std::has_single_bit(unsigned(N)))
 	      {
 		using V0 = detail::flat_element_t<0, tuple_type>;
-- 
2.43.0


From 045aa8fbc63efbdcb755821d5155eace6e9004d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:07 +0000
Subject: [PATCH 10/30] fix: accept _cw literals 0x0, 00, 0b0 and 0B...

---
 vir/constexpr_wrapper.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vir/constexpr_wrapper.h b/vir/constexpr_wrapper.h
index 2f1cfae..e05492a 100644
--- a/vir/constexpr_wrapper.h
+++ b/vir/constexpr_wrapper.h
@@ -397,7 +397,8 @@ namespace vir
         constexpr std::array arr = cw_prepare_array<Chars...>();
         constexpr int base = arr[0] == '0' and 2 < arr.size()
                                ? arr[1] == 'x' or arr[1] == 'X' ? 16
-                                                                : arr[1] == 'b' ? 2 : 8
+                                                                : arr[1] == 'b' or arr[1] == 'B'
+                                                                    ? 2 : 8
                                : 10;
         constexpr int offset = base == 10 ? 0 : base == 8 ? 1 : 2;
         constexpr bool valid_chars = std::all_of(arr.begin() + offset, arr.end(), [=](char c) {
@@ -441,7 +442,9 @@ namespace vir
                 }
               return x;
             }();
-            static_assert(x != 0, "constexpr_wrapper literal value out of range");
+            constexpr bool is_zero = std::all_of(arr.begin() + offset, arr.end(),
+                                                 [](char c) { return c == '0'; });
+            static_assert(x != 0 or is_zero, "constexpr_wrapper literal value out of range");
             if constexpr (x <= std::numeric_limits<signed char>::max())
               return static_cast<signed char>(x);
             else if constexpr (x <= std::numeric_limits<signed short>::max())
-- 
2.43.0


From 52de3b952f68fe44c656210ae3bea6bcd8daa8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:14 +0000
Subject: [PATCH 11/30] fix: is_simd_flag_type must identify the load/store
 flag types

---
 vir/simd.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vir/simd.h b/vir/simd.h
index d54be7d..480801b 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -547,6 +547,19 @@ namespace vir::stdx
     struct is_simd_flag_type : std::false_type
     {};
 
+  template <>
+    struct is_simd_flag_type<element_aligned_tag> : std::true_type
+    {};
+
+  template <>
+    struct is_simd_flag_type<vector_aligned_tag> : std::true_type
+    {};
+
+  template <size_t N>
+    struct is_simd_flag_type<overaligned_tag<N>>
+    : std::bool_constant<(N > 0) && (N & (N - 1)) == 0>
+    {};
+
   template <class T>
     inline constexpr bool is_simd_flag_type_v = is_simd_flag_type<T>::value;
 
-- 
2.43.0


From c80fe634a69845a5c97bf69ec4ad071366eeefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:14 +0000
Subject: [PATCH 12/30] fix: masked load constructor of simd_mask<T,
 simd_abi::scalar>

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index 480801b..d184f33 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -679,7 +679,7 @@ namespace vir::stdx
       template <typename Flags>
         constexpr
         simd_mask(const value_type* mem, simd_mask k, Flags)
-        : data(k ? mem[0] : false)
+        : data(k.data ? mem[0] : false)
         {}
 
       // loads [simd_mask.load]
-- 
2.43.0


From 3cd577a2245165b88f1a66fdd825915ed4541804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:14 +0000
Subject: [PATCH 13/30] fix: masked hmin/hmax if all selected elements are
 infinite

---
 vir/simd.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index d184f33..b4da917 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2388,12 +2388,11 @@ namespace vir::stdx
     hmin(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::max();
-#else
-        std::numeric_limits<T>::infinity();
-#endif
+      if (none_of(get_mask(x)))
+        return std::numeric_limits<T>::max();
+      constexpr T id_elem = std::numeric_limits<T>::has_infinity
+                              ? T(std::numeric_limits<T>::infinity())
+                              : std::numeric_limits<T>::max();
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::min;
                return min(l, r);
@@ -2406,12 +2405,11 @@ namespace vir::stdx
     hmax(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::lowest();
-#else
-        -std::numeric_limits<T>::infinity();
-#endif
+      if (none_of(get_mask(x)))
+        return std::numeric_limits<T>::lowest();
+      constexpr T id_elem = std::numeric_limits<T>::has_infinity
+                              ? T(-std::numeric_limits<T>::infinity())
+                              : std::numeric_limits<T>::lowest();
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::max;
                return max(l, r);
-- 
2.43.0


From eea7e8e8288d4467123214a8cfb902b9885dbddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:14 +0000
Subject: [PATCH 14/30] fix: add the missing exp, exp2, expm1 and cbrt
 overloads

---
 vir/simd.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vir/simd.h b/vir/simd.h
index b4da917..caf44d7 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2600,6 +2600,12 @@ namespace vir::stdx
   SIMD_MATH_1ARG(acosh, simd)
   SIMD_MATH_1ARG(atanh, simd)
 
+  // exponentials
+  SIMD_MATH_1ARG(exp, simd)
+  SIMD_MATH_1ARG(exp2, simd)
+  SIMD_MATH_1ARG(expm1, simd)
+  SIMD_MATH_1ARG(cbrt, simd)
+
   // logarithms
   SIMD_MATH_1ARG(log, simd)
   SIMD_MATH_1ARG(log10, simd)
-- 
2.43.0


From 7cff0801cfd9db5c33d27402a179854a98e022f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:14 +0000
Subject: [PATCH 15/30] fix: static_simd_cast must not accept a simd type of
 different size

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index caf44d7..a6ed313 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1787,7 +1787,7 @@ namespace vir::stdx
     { return simd<T, A>([&x](size_t i) { return static_cast<T>(x[i]); }); }
 
   template <typename V, typename U, typename A,
-            typename = std::enable_if_t<is_simd_v<V>>>
+            typename = std::enable_if_t<is_simd_v<V> && V::size() == simd_size_v<U, A>>>
     constexpr V
     static_simd_cast(const simd<U, A>& x)
     { return V([&x](size_t i) { return static_cast<typename V::value_type>(x[i]); }); }
-- 
2.43.0


From 35ab4e704e5402e5f515e5d562640ec802f396cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:14 +0000
Subject: [PATCH 16/30] fix: to_native and to_compatible for native_simd with
 more than one element

---
 vir/simd.h | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index a6ed313..426f580 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1834,26 +1834,30 @@ namespace vir::stdx
     { return fixed_size_simd_mask<T, 1>(x[0]); }
 
   // to_native
-  template <typename T>
-    constexpr simd<T>
-    to_native(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd_size_v<T, simd_abi::native<T>>,
+                               simd<T, simd_abi::native<T>>>
+    to_native(const fixed_size_simd<T, N>& x)
+    { return simd<T, simd_abi::native<T>>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_native(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd_size_v<T, simd_abi::native<T>>,
+                               simd_mask<T, simd_abi::native<T>>>
+    to_native(const fixed_size_simd_mask<T, N>& x)
+    { return simd_mask<T, simd_abi::native<T>>([&x](size_t i) { return x[i]; }); }
 
   // to_compatible
-  template <typename T>
-    constexpr simd<T>
-    to_compatible(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd_size_v<T, simd_abi::compatible<T>>,
+                               simd<T, simd_abi::compatible<T>>>
+    to_compatible(const fixed_size_simd<T, N>& x)
+    { return simd<T, simd_abi::compatible<T>>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_compatible(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd_size_v<T, simd_abi::compatible<T>>,
+                               simd_mask<T, simd_abi::compatible<T>>>
+    to_compatible(const fixed_size_simd_mask<T, N>& x)
+    { return simd_mask<T, simd_abi::compatible<T>>([&x](size_t i) { return x[i]; }); }
 
   // split(simd)
   template <typename V, int N, size_t Parts = N / V::size()>
-- 
2.43.0


From 4e1c87573c6e56b8ed585381f01a3181a6418d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:35 +0000
Subject: [PATCH 17/30] fix: simd_permute.h must include what it uses
 (bit_cast, shufflevector macro)

---
 vir/simd_permute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index c8360da..0a39246 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -19,6 +19,7 @@
 
 #include "simd.h"
 #include "constexpr_wrapper.h"
+#include "detail.h"
 #include <bit>
 
 namespace vir
-- 
2.43.0


From aa11cbc69b0f589ba0cd95d2c89b32daccd02e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:09 +0000
Subject: [PATCH 18/30] fix: simd_permute of simd_mask must not form a builtin
 vector of bool

---
 vir/simd_permute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 0a39246..048e5f1 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -187,7 +187,7 @@ namespace vir
       using R = stdx::resize_simd_t<N == 0 ? V::size() : N, V>;
 
 #if defined __GNUC__
-      if (not std::is_constant_evaluated())
+      if constexpr (vir::any_simd<V>) if (not std::is_constant_evaluated())
 	if constexpr (std::has_single_bit(sizeof(V)) and V::size() <= stdx::native_simd<T>::size())
 	  {
 #if defined __AVX2__
-- 
2.43.0


From 8caa9a65567be88a78361689f2fb1456be63056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:50 +0000
Subject: [PATCH 19/30] fix: assume_matching_size must not instantiate the
 callable for other chunk sizes

The constant-evaluation branches of for_each and transform still required the
callable to accept smaller simd types.
---
 vir/simd_execution.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index fa1e7e1..07d4a12 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -756,12 +756,13 @@ case0:
                 result.copy_to(std::to_address(d_first), stdx::element_aligned);
               }
 
-            for (; first1 < last1; advance(1, first1, d_first, first2...))
-              {
-                const vir::simdize<OutT, 1>& result
-                  = simdized_load_and_invoke(op, 1_cw, first1, first2...);
-                result.copy_to(std::to_address(d_first), stdx::element_aligned);
-              }
+            if constexpr (not assume_matching_size)
+              for (; first1 < last1; advance(1, first1, d_first, first2...))
+                {
+                  const vir::simdize<OutT, 1>& result
+                    = simdized_load_and_invoke(op, 1_cw, first1, first2...);
+                  result.copy_to(std::to_address(d_first), stdx::element_aligned);
+                }
           }
         else
           {
@@ -1146,7 +1147,7 @@ case0:
             detail::simd_load_and_invoke<V, write_back>(fun, std::to_address(first),
                                                         stdx::element_aligned, detail::no_unroll);
 
-          if constexpr (size > 1)
+          if constexpr (not assume_matching_size and size > 1)
             if (distance % size)
               detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
                                                             stdx::element_aligned);
-- 
2.43.0


From 660c5a3af7f6f5ea411f8dcfe699cfc4d8958615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 20/30] fix: simdize_size of types that are neither simd nor a
 tuple of simds is 0

---
 vir/simdize.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 6933858..6d7693d 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -38,12 +38,17 @@ namespace vir
 #ifndef DOXYGEN
 	if constexpr (stdx::is_simd_v<T>)
 	  return T::size();
-	else if constexpr (reflectable_struct<T> and []<std::size_t... Is>(
-			     std::index_sequence<Is...>) {
-			     return ((simdize_size<vir::struct_element_t<0, T>>::value
-					== simdize_size<vir::struct_element_t<Is, T>>::value) and ...);
-			   }(std::make_index_sequence<vir::struct_size_v<T>>()))
-	  return simdize_size<vir::struct_element_t<0, T>>::value;
+	else if constexpr (reflectable_struct<T>)
+	  {
+	    if constexpr (vir::struct_size_v<T> == 0)
+	      return 0;
+	    else
+	      return []<std::size_t... Is>(std::index_sequence<Is...>) {
+		constexpr int first = simdize_size<vir::struct_element_t<0, T>>::value;
+		return ((first == simdize_size<vir::struct_element_t<Is, T>>::value) and ...)
+			 ? first : 0;
+	      }(std::make_index_sequence<vir::struct_size_v<T>>());
+	  }
 	else
 	  return 0;
 #endif
-- 
2.43.0


From fb0946729d48528ac4eb992875abc935d11a30de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:51 +0000
Subject: [PATCH 21/30] fix: loading 8 structs of 3 floats must not reorder the
 elements

---
 vir/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 6d7693d..43d824b 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -691,7 +691,7 @@ namespace vir
 		      // c = [b5 c5 a6 b6 c6 a7 b7 c7] 233 = 121+112
 
 		      using v8sf [[gnu::vector_size(32)]] = float;
-		      if constexpr (true) // allow_unordered
+		      if constexpr (false) // allow_unordered
 			{
 			  v8sf x0, x1, x2, a0, b0, c0;
 			  std::memcpy(&x0, byte_ptr +  0, 32);
-- 
2.43.0


From ab662b5fdbd8763005dea441e5569afa88b3b438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:25 +0000
Subject: [PATCH 22/30] fix: VIR_CHECK_PRECONDITIONS=4 and 5 must compile with
 clang

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index 426f580..6da50c5 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -89,7 +89,7 @@ namespace vir::detail
 #elif defined __GNUC__ and VIR_CHECK_PRECONDITIONS < 4
       __builtin_trap();
 #else
-      [&] VIR_GNU_ATTR_COLD () {
+      [&]() VIR_GNU_ATTR_COLD {
         std::fprintf(stderr, msg, args...);
       }();
       std::abort();
-- 
2.43.0


From 96c5cf40239aa324afabaee0e0c518dcd156bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:46 +0000
Subject: [PATCH 23/30] fix: for_each and transform in constant expressions
 must not form pointers past the end

'first + (size - 1)' is not a constant expression if fewer than size - 1
elements are left; clang rejects it.
---
 vir/simd_execution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 07d4a12..678fe07 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -750,7 +750,7 @@ case0:
         if (std::is_constant_evaluated())
           {
             // needs element_aligned because of GCC PR111302
-            for (; first1 + (size - 1) < last1; advance(size, first1, d_first, first2...))
+            for (; last1 - first1 >= size; advance(size, first1, d_first, first2...))
               {
                 const OutV& result = simdized_load_and_invoke(op, size, first1, first2...);
                 result.copy_to(std::to_address(d_first), stdx::element_aligned);
@@ -1143,7 +1143,7 @@ case0:
       if (std::is_constant_evaluated())
         {
           // needs element_aligned because of GCC PR111302
-          for (; first + (size - 1) < last; first += size)
+          for (; last - first >= size; first += size)
             detail::simd_load_and_invoke<V, write_back>(fun, std::to_address(first),
                                                         stdx::element_aligned, detail::no_unroll);
 
-- 
2.43.0


From 293062ea52e5fe95b1bb2f12befeb8c6626bbc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:09 +0000
Subject: [PATCH 24/30] fix: struct_reflect.h after other headers with the
 fallback implementation

Inside vir::detail, the name detail is ambiguous once vir::detail uses
vir::stdx.
---
 vir/struct_reflect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/struct_reflect.h b/vir/struct_reflect.h
index 9e46179..b3882ff 100644
--- a/vir/struct_reflect.h
+++ b/vir/struct_reflect.h
@@ -378,7 +378,7 @@ namespace vir
     template <typename T>
       concept aggregate_without_tuple_size
 	= std::is_aggregate_v<T> and not has_tuple_size<T>
-	    and requires (const T& x) { detail::struct_size<T>(); };
+	    and requires (const T& x) { vir::detail::struct_size<T>(); };
 
     // traits
     template <typename From, typename To>
-- 
2.43.0


From 4ae33bb28edffbf1f9ceb5fa02faf5a8e472a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:42 +0000
Subject: [PATCH 25/30] fix: masked reduce, hmin and hmax in constant
 expressions

They are declared constexpr but called functions that are not.
---
 vir/simd.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 6da50c5..1d6cef3 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1974,11 +1974,11 @@ namespace vir::stdx
       using value_type =
         typename std::conditional_t<std::is_arithmetic_v<V>, Wrapper, V>::value_type;
 
-      friend const M&
+      friend constexpr const M&
       get_mask(const const_where_expression& x)
       { return x.m_k; }
 
-      friend const V&
+      friend constexpr const V&
       get_lvalue(const const_where_expression& x)
       { return x.m_value; }
 
@@ -2035,11 +2035,11 @@ namespace vir::stdx
       using value_type =
         typename std::conditional_t<std::is_arithmetic_v<V>, Wrapper, V>::value_type;
 
-      friend const M&
+      friend constexpr const M&
       get_mask(const const_where_expression& x)
       { return x.m_k; }
 
-      friend const V&
+      friend constexpr const V&
       get_lvalue(const const_where_expression& x)
       { return x.m_value; }
 
@@ -2085,7 +2085,7 @@ namespace vir::stdx
       static_assert(std::is_same_v<typename M::abi_type, typename V::abi_type>);
       static_assert(M::size() == V::size());
 
-      friend V&
+      friend constexpr V&
       get_lvalue(where_expression& x)
       { return x.m_value; }
 
-- 
2.43.0


From 35c7f37d211f8b9dfc46e0beba17ad9f07bdb385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 26/30] fix: fake_modify/fake_read for all simd and mask types

The fallback simd is an array in a struct, which fits no register class for
many sizes; GCC rejects constant native vectors with multiple alternatives.
---
 vir/simd_benchmarking.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vir/simd_benchmarking.h b/vir/simd_benchmarking.h
index 2f66795..d8a8107 100644
--- a/vir/simd_benchmarking.h
+++ b/vir/simd_benchmarking.h
@@ -38,15 +38,17 @@ namespace vir
 	  else
 	    fake_modify_one(d);
 #else
-	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
-	    asm volatile("" : "+g"(x));
-	  else
-	    asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	  // assuming vir::stdx::simd implementation: an array does not fit into a register of arbitrary
+	  // class and size
+	  asm volatile("" : "+m"(x));
 #endif
 	}
       else if constexpr (sizeof(x) >= 16)
+#if defined __clang__ or not (defined __x86_64__ or defined __i686__)
 	asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+#else // with several alternatives, GCC cannot reload constant vectors
+	asm volatile("" : "+vxgm"(x));
+#endif
       else
 	asm volatile("" : "+g"(x));
     }
@@ -79,7 +81,7 @@ namespace vir
 	  if constexpr (sizeof(x) < 16)
 	    asm volatile("" ::"g"(x));
 	  else
-	    asm volatile("" ::VIR_SIMD_REG "g,m"(x));
+	    asm volatile("" ::"m"(x));
 #endif
 	}
       else if constexpr (sizeof(x) >= 16)
-- 
2.43.0


From 104ea3881f0ce9ba825ef6c3de984deba217dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:37 +0000
Subject: [PATCH 27/30] fix: transform of an empty zip_view dereferenced its
 begin iterator

---
 vir/simd_execution.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 678fe07..96560e3 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1268,6 +1268,8 @@ case0:
               detail::simd_execution_range auto&& d_rg, auto op)
     {
       const auto size = std::ranges::size(rs);
+      if (size == 0) // there is no element to take the address of
+        return std::ranges::begin(d_rg);
       const auto it = std::ranges::begin(rs);
       const auto first0 = std::addressof(std::get<0>(*it));
       return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-- 
2.43.0


From 3358741ac1be10a325685e43aeac2a390195cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:03 +0000
Subject: [PATCH 28/30] fix: to_fixed_size of simd and simd_mask with the
 scalar ABI

---
 vir/simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 1d6cef3..307d9aa 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1825,12 +1825,12 @@ namespace vir::stdx
 
   template <typename T>
     constexpr fixed_size_simd<T, 1>
-    to_fixed_size(const simd<T> x)
+    to_fixed_size(const simd<T, simd_abi::scalar> x)
     { return x[0]; }
 
   template <typename T>
     constexpr fixed_size_simd_mask<T, 1>
-    to_fixed_size(const simd_mask<T> x)
+    to_fixed_size(const simd_mask<T, simd_abi::scalar> x)
     { return fixed_size_simd_mask<T, 1>(x[0]); }
 
   // to_native
-- 
2.43.0


From 1b149ace28fe1dd362fb9d4fd13fe4c60cdf5425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 29/30] fix: simd_resize of simd_mask with
 std::experimental::simd

The README documents vir::simd_resize<N>(simd_mask), but the implementation
used a generator constructor that std::experimental::simd_mask does not have.
---
 vir/simd_resize.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vir/simd_resize.h b/vir/simd_resize.h
index af5dee6..9bf9de3 100644
--- a/vir/simd_resize.h
+++ b/vir/simd_resize.h
@@ -28,6 +28,11 @@ namespace vir
     constexpr vir::detail::deduced_simd_mask<T, N>
     simd_resize(const stdx::simd_mask<T, A>& x)
     {
+#if VIR_GLIBCXX_STDX_SIMD
+      // std::experimental::simd_mask has no generator constructor
+      return std::experimental::parallelism_v2::__proposed::resizing_simd_cast<
+               vir::detail::deduced_simd_mask<T, N>>(x);
+#else
       constexpr int xn = stdx::simd_size_v<T, A>;
       return vir::detail::deduced_simd_mask<T, N>([&x](auto i) {
                if constexpr (i < xn)
@@ -35,6 +40,7 @@ namespace vir
                else
                  return false;
              });
+#endif
     }
 
   template <typename V, typename A>
-- 
2.43.0


From 852305fe1e8bc1484728b2dea22d03a56083b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 30/30] fix: bitwise operators of floating-point simds that are
 not trivially copyable

operator&, |, and ^ of vir::simd_float_ops did not compile for
std::experimental::simd<floating-point, simd_abi::fixed_size<N>>, nor for AVX
floating-point simds on targets without AVX2 (fixed_size unsigned counterpart).
---
 vir/simd_float_ops.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/vir/simd_float_ops.h b/vir/simd_float_ops.h
index f1c06ac..2c6b614 100644
--- a/vir/simd_float_ops.h
+++ b/vir/simd_float_ops.h
@@ -11,6 +11,20 @@
 
 namespace vir
 {
+  namespace detail
+  {
+    // true iff V and the corresponding simd of unsigned integers can be bit_cast into each other
+    template <typename V, typename T = typename V::value_type,
+              bool = (sizeof(T) <= sizeof(long long))>
+      inline constexpr bool float_ops_via_bit_cast = false;
+
+    template <typename V, typename T>
+      inline constexpr bool float_ops_via_bit_cast<V, T, true>
+        = std::is_trivially_copyable_v<V>
+            and std::is_trivially_copyable_v<stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>>
+            and sizeof(V) == sizeof(stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>);
+  }
+
   namespace simd_float_ops
   {
     template <typename T, typename A>
@@ -18,7 +32,7 @@ namespace vir
       operator&(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (detail::float_ops_via_bit_cast<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -36,7 +50,7 @@ namespace vir
       operator|(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (detail::float_ops_via_bit_cast<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -54,7 +68,7 @@ namespace vir
       operator^(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (detail::float_ops_via_bit_cast<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
-- 
2.43.0

