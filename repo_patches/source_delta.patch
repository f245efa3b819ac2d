From b7547bd795a07835a14e8620eb74db07e6df3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 01/30] fix: SSE short division must wrap, not saturate, the
 quotient of -32768 / -1

-32768 / -1 gave 32767 and, because operator% is computed from the quotient,
-32768 % -1 gave -1 instead of 0.
---
 Vc/sse/vectorhelper.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Vc/sse/vectorhelper.h b/Vc/sse/vectorhelper.h
index 1b51646..e0164ae 100644
--- a/Vc/sse/vectorhelper.h
+++ b/Vc/sse/vectorhelper.h
@@ -450,7 +450,13 @@ namespace SSE
             Vc_OP_(or_) Vc_OP_(and_) Vc_OP_(xor_)
             static Vc_ALWAYS_INLINE Vc_CONST VectorType zero() { return Vc_CAT2(_mm_setzero_, Vc_SUFFIX)(); }
             static Vc_ALWAYS_INLINE Vc_CONST VectorType notMaskedToZero(VectorType a, __m128 mask) { return Vc_CAT2(_mm_and_, Vc_SUFFIX)(_mm_castps_si128(mask), a); }
-            static Vc_ALWAYS_INLINE Vc_CONST __m128i concat(__m128i a, __m128i b) { return _mm_packs_epi32(a, b); }
+            // drops the upper 16 bits (instead of saturating), e.g. for -32768 / -1
+            static Vc_ALWAYS_INLINE Vc_CONST __m128i concat(__m128i a, __m128i b)
+            {
+                a = _mm_srai_epi32(_mm_slli_epi32(a, 16), 16);
+                b = _mm_srai_epi32(_mm_slli_epi32(b, 16), 16);
+                return _mm_packs_epi32(a, b);
+            }
             static Vc_ALWAYS_INLINE Vc_CONST __m128i expand0(__m128i x) { return _mm_srai_epi32(_mm_unpacklo_epi16(x, x), 16); }
             static Vc_ALWAYS_INLINE Vc_CONST __m128i expand1(__m128i x) { return _mm_srai_epi32(_mm_unpackhi_epi16(x, x), 16); }
 
-- 
2.43.0


From 0361147f0541731f497d655e35e8c85d6dc0f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 02/30] fix: vector comparison operator>= (and > on AVX without
 GCC) must be false for NaN operands

---
 Vc/avx/intrinsics.h | 8 ++++----
 Vc/sse/vector.tcc   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Vc/avx/intrinsics.h b/Vc/avx/intrinsics.h
index 492e6b0..2122929 100644
--- a/Vc/avx/intrinsics.h
+++ b/Vc/avx/intrinsics.h
@@ -180,16 +180,16 @@ namespace AvxIntrinsics
     Vc_INTRINSIC __m256d cmpeq_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256d cmpneq_pd  (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256d cmplt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256d cmple_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GT_OS); }
 
     Vc_INTRINSIC __m256  cmpeq_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256  cmpneq_ps  (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256  cmplt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256  cmple_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GT_OS); }
 #endif
     Vc_INTRINSIC __m256d cmpnlt_pd  (__m256d a, __m256d b) { return cmpge_pd(a, b); }
     Vc_INTRINSIC __m256d cmpnle_pd  (__m256d a, __m256d b) { return cmpgt_pd(a, b); }
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index 2e2fe5d..d857ca1 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -91,8 +91,8 @@ Vc_INTRINSIC SSE::ushort_m operator< (SSE::ushort_v a, SSE::ushort_v b) {
 #endif
 }
 
-Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpnlt_pd(a.data(), b.data()); }
-Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpnlt_ps(a.data(), b.data()); }
+Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpge_pd(a.data(), b.data()); }
+Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpge_ps(a.data(), b.data()); }
 Vc_INTRINSIC SSE::   int_m operator>=(SSE::   int_v a, SSE::   int_v b) { return !(a < b); }
 Vc_INTRINSIC SSE::  uint_m operator>=(SSE::  uint_v a, SSE::  uint_v b) { return !(a < b); }
 Vc_INTRINSIC SSE:: short_m operator>=(SSE:: short_v a, SSE:: short_v b) { return !(a < b); }
-- 
2.43.0


From 838e3fde99b8e00beb27b855876686914d022e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:04 +0000
Subject: [PATCH 03/30] fix: isNegative() must test the sign bit, as
 documented, so that it is true for -0.0

---
 Vc/avx/vector.h    | 2 +-
 Vc/scalar/vector.h | 2 +-
 Vc/sse/vector.h    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index e07d4ca..e14fd1c 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -383,7 +383,7 @@ public:
         Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC Vc_PURE Mask
             isNegative() const
         {
-            return Vc::isnegative(*this);
+            return isnegative(*this);  // unqualified: ADL finds the overloads that test the sign bit
         }
 
         Vc_ALWAYS_INLINE void assign( const Vector &v, const Mask &mask ) {
diff --git a/Vc/scalar/vector.h b/Vc/scalar/vector.h
index c6d979a..2df1670 100644
--- a/Vc/scalar/vector.h
+++ b/Vc/scalar/vector.h
@@ -200,7 +200,7 @@ template <typename T> class Vector<T, VectorAbi::Scalar>
         Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC Vc_PURE Mask
             isNegative() const
         {
-            return Vc::isnegative(*this);
+            return isnegative(*this);  // unqualified: ADL finds the overloads that test the sign bit
         }
 
         Vc_ALWAYS_INLINE void assign(const Vector &v, const Mask &m) {
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 6af4a03..8b7480a 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -316,7 +316,7 @@ template <typename T> class Vector<T, VectorAbi::Sse>
         Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC Vc_PURE Mask
             isNegative() const
         {
-            return Vc::isnegative(*this);
+            return isnegative(*this);  // unqualified: ADL finds the overloads that test the sign bit
         }
 
         Vc_ALWAYS_INLINE void assign(const Vector &v, const Mask &mask)
-- 
2.43.0


From 941309741a5a02cd2a1afc3bfa602cfdb4aeaa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 04/30] fix: AVX zeroExtend must clear the upper half instead
 of leaving it undefined

---
 Vc/avx/casts.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Vc/avx/casts.h b/Vc/avx/casts.h
index 2dcf609..f99c639 100644
--- a/Vc/avx/casts.h
+++ b/Vc/avx/casts.h
@@ -81,9 +81,10 @@ namespace Casts
     static Vc_INTRINSIC Vc_CONST __m256i zeroExtend(__m128i v) { return _mm256_permute2f128_si256(_mm256_castsi128_si256(v), _mm256_castsi128_si256(v), 0x80); }
     static Vc_INTRINSIC Vc_CONST __m256d zeroExtend(__m128d v) { return _mm256_permute2f128_pd   (_mm256_castpd128_pd256(v), _mm256_castpd128_pd256(v), 0x80); }
 #else
-    static Vc_INTRINSIC Vc_CONST __m256  zeroExtend(__m128  v) { return _mm256_castps128_ps256(v); }
-    static Vc_INTRINSIC Vc_CONST __m256i zeroExtend(__m128i v) { return _mm256_castsi128_si256(v); }
-    static Vc_INTRINSIC Vc_CONST __m256d zeroExtend(__m128d v) { return _mm256_castpd128_pd256(v); }
+    // _mm256_cast*128_*256 leaves the upper half undefined
+    static Vc_INTRINSIC Vc_CONST __m256  zeroExtend(__m128  v) { return _mm256_insertf128_ps(_mm256_setzero_ps(), v, 0); }
+    static Vc_INTRINSIC Vc_CONST __m256i zeroExtend(__m128i v) { return _mm256_insertf128_si256(_mm256_setzero_si256(), v, 0); }
+    static Vc_INTRINSIC Vc_CONST __m256d zeroExtend(__m128d v) { return _mm256_insertf128_pd(_mm256_setzero_pd(), v, 0); }
 #endif
 
     // 256 -> 128
-- 
2.43.0


From 4cd365f09d5097c6be0d13fc9cc8ae595f85ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:27 +0000
Subject: [PATCH 05/30] fix: masked ++ and -- must not touch inactive lanes
 (-0.0 became +0.0)

---
 Vc/common/writemaskedvector.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Vc/common/writemaskedvector.h b/Vc/common/writemaskedvector.h
index 09541fc..2731cec 100644
--- a/Vc/common/writemaskedvector.h
+++ b/Vc/common/writemaskedvector.h
@@ -56,15 +56,13 @@ public:
     // prefix
     Vc_INTRINSIC V &operator++()
     {
-        V one = V::One();
-        one.setZeroInverted(mask);
-        return vec += one;
+        vec.assign(vec + V::One(), mask);
+        return vec;
     }
     Vc_INTRINSIC V &operator--()
     {
-        V one = V::One();
-        one.setZeroInverted(mask);
-        return vec -= one;
+        vec.assign(vec - V::One(), mask);
+        return vec;
     }
 
     // postfix
-- 
2.43.0


From f4f925617b2cf2f6fd08b42ee81b004313e532c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 06/30] fix: storing a vector to an array of a different type
 must convert the elements

---
 Vc/avx/vector.tcc | 17 +++++++++++++++--
 Vc/common/types.h | 14 ++++++++++++++
 Vc/sse/vector.tcc | 17 +++++++++++++++--
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 63d867d..15c6215 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -319,7 +319,13 @@ template <typename U,
 Vc_INTRINSIC void Vector<T, VectorAbi::Avx>::store(U *mem, Flags flags) const
 {
     Common::handleStorePrefetches(mem, flags);
-    HV::template store<Flags>(mem, data());
+    if (!Common::Detail::is_bitwise_storable<T, U>::value) {
+        for (std::size_t i = 0; i < Size; ++i) {
+            mem[i] = static_cast<U>(d.m(i));
+        }
+        return;
+    }
+    HV::template store<Flags>(reinterpret_cast<EntryType *>(mem), data());
 }
 
 template <typename T>
@@ -329,7 +335,14 @@ template <typename U,
 Vc_INTRINSIC void Vector<T, VectorAbi::Avx>::store(U *mem, Mask mask, Flags flags) const
 {
     Common::handleStorePrefetches(mem, flags);
-    HV::template store<Flags>(mem, data(), mask.data());
+    if (!Common::Detail::is_bitwise_storable<T, U>::value) {
+        for (std::size_t i = 0; i < Size; ++i) {
+            if (mask[i])
+                mem[i] = static_cast<U>(d.m(i));
+        }
+        return;
+    }
+    HV::template store<Flags>(reinterpret_cast<EntryType *>(mem), data(), mask.data());
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////
diff --git a/Vc/common/types.h b/Vc/common/types.h
index 50ce57d..2a18b9c 100644
--- a/Vc/common/types.h
+++ b/Vc/common/types.h
@@ -316,6 +316,20 @@ using enable_if_mask_converts_explicitly = enable_if<(
      !Traits::is_implicit_cast_allowed_mask<
          Traits::entry_type_of<typename Traits::decay<U>::Vector>, T>::value))>;
 
+namespace Detail
+{
+/**\internal
+ * Whether a vector with entries of type T can be stored to an array of U without conversion.
+ */
+template <typename T, typename U>
+struct is_bitwise_storable
+    : public std::integral_constant<
+          bool, std::is_same<T, U>::value ||
+                    (std::is_integral<T>::value && std::is_integral<U>::value &&
+                     !std::is_same<bool, U>::value && sizeof(T) == sizeof(U))> {
+};
+}  // namespace Detail
+
 /**\internal
  * Tag type for overloading on the width (\VSize{T}) of a vector.
  */
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index d857ca1..0d581a3 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -260,7 +260,13 @@ template <typename U, typename Flags, typename>
 Vc_INTRINSIC void Vector<T, VectorAbi::Sse>::store(U *mem, Flags flags) const
 {
     Common::handleStorePrefetches(mem, flags);
-    HV::template store<Flags>(mem, data());
+    if (!Common::Detail::is_bitwise_storable<T, U>::value) {
+        for (std::size_t i = 0; i < Size; ++i) {
+            mem[i] = static_cast<U>(d.m(i));
+        }
+        return;
+    }
+    HV::template store<Flags>(reinterpret_cast<EntryType *>(mem), data());
 }
 
 template <typename T>
@@ -268,7 +274,14 @@ template <typename U, typename Flags, typename>
 Vc_INTRINSIC void Vector<T, VectorAbi::Sse>::store(U *mem, Mask mask, Flags flags) const
 {
     Common::handleStorePrefetches(mem, flags);
-    HV::template store<Flags>(mem, data(), mask.data());
+    if (!Common::Detail::is_bitwise_storable<T, U>::value) {
+        for (std::size_t i = 0; i < Size; ++i) {
+            if (mask[i])
+                mem[i] = static_cast<U>(d.m(i));
+        }
+        return;
+    }
+    HV::template store<Flags>(reinterpret_cast<EntryType *>(mem), data(), mask.data());
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1adb3838f8746c13b0d5ba63291c4d616a7c3e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 07/30] fix: AVX loads of double_v from 8/16-bit integers and
 of float_v from uint must convert the elements that are in memory

---
 Vc/avx/detail.h | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 5802755..3db2460 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -373,24 +373,28 @@ Vc_INTRINSIC __m256d load(const int *mem, Flags f, LoadTag<__m256d, double>)
     return AVX::convert<int, double>(load16(mem, f));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const ushort *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const ushort *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<ushort, double>(
+        _mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const short *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const short *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<short, double>(
+        _mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const uchar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const uchar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepu8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const schar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const schar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepi8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 
 // float {{{2
@@ -403,12 +407,7 @@ Vc_INTRINSIC __m256 load(const double *mem, Flags f, LoadTag<__m256, float>)
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const uint *mem, Flags f, LoadTag<__m256, float>)
 {
-    const auto v = load32(mem, f);
-    return _mm256_blendv_ps(
-        _mm256_cvtepi32_ps(v),
-        _mm256_add_ps(_mm256_cvtepi32_ps(AVX::sub_epi32(v, AVX::set2power31_epu32())),
-                      AVX::set2power31_ps()),
-        _mm256_castsi256_ps(AVX::cmplt_epi32(v, _mm256_setzero_si256())));
+    return AVX::convert<uint, float>(load32(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const int *mem, Flags f, LoadTag<__m256, float>)
-- 
2.43.0


From 87daa3bb9d23413e0692031b7795c9b7e91a3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 08/30] fix: aligned load of an SSE float_v from double must
 not require more than MemoryAlignment

---
 Vc/sse/detail.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/detail.h b/Vc/sse/detail.h
index af29a5d..6cecbbf 100644
--- a/Vc/sse/detail.h
+++ b/Vc/sse/detail.h
@@ -310,8 +310,8 @@ Vc_INTRINSIC __m128 load(const double *mem, Flags, LoadTag<__m128, float>)
         return _mm256_cvtpd_ps(_mm256_loadu_pd(mem));
     } else if (Flags::IsStreaming) {
         return _mm256_cvtpd_ps(AvxIntrinsics::stream_load<__m256d>(mem));
-    } else {  // Flags::IsAligned
-        return _mm256_cvtpd_ps(_mm256_load_pd(mem));
+    } else {  // Flags::IsAligned: float_v::MemoryAlignment guarantees only 16 Bytes
+        return _mm256_cvtpd_ps(_mm256_loadu_pd(mem));
     }
 #else
     return _mm_movelh_ps(_mm_cvtpd_ps(SSE::VectorHelper<__m128d>::load<Flags>(&mem[0])),
-- 
2.43.0


From 6b65ee5f7fddaa5796711f28eafd4cccc41d2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 09/30] fix: converting SSE int/uint vectors to short_v must
 wrap like simd_cast and static_cast, not saturate

---
 Vc/sse/casts.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/casts.h b/Vc/sse/casts.h
index 8df29df..e5de518 100644
--- a/Vc/sse/casts.h
+++ b/Vc/sse/casts.h
@@ -127,8 +127,8 @@ Vc_INTRINSIC __m128d convert(__m128i v, ConvertTag<uint  , double>) { return _mm
 Vc_INTRINSIC __m128d convert(__m128i v, ConvertTag<short , double>) { return convert(convert(v, ConvertTag<short, int>()), ConvertTag<int, double>()); }
 Vc_INTRINSIC __m128d convert(__m128i v, ConvertTag<ushort, double>) { return convert(convert(v, ConvertTag<ushort, int>()), ConvertTag<int, double>()); }
 Vc_INTRINSIC __m128i convert(__m128  v, ConvertTag<float , short >) { return _mm_packs_epi32(_mm_cvttps_epi32(v), _mm_setzero_si128()); }
-Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , short >) { return _mm_packs_epi32(v, _mm_setzero_si128()); }
-Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<uint  , short >) { return _mm_packs_epi32(v, _mm_setzero_si128()); }
+Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , short >) { return _mm_packs_epi32(_mm_srai_epi32(_mm_slli_epi32(v, 16), 16), _mm_setzero_si128()); }  // wraps instead of saturating
+Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<uint  , short >) { return _mm_packs_epi32(_mm_srai_epi32(_mm_slli_epi32(v, 16), 16), _mm_setzero_si128()); }  // wraps instead of saturating
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<short , short >) { return v; }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<ushort, short >) { return v; }
 Vc_INTRINSIC __m128i convert(__m128d v, ConvertTag<double, short >) { return convert(convert(v, ConvertTag<double, int>()), ConvertTag<int, short>()); }
-- 
2.43.0


From 4f9a21fe1ae75f839808e6a475d6cffff75f93cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 10/30] fix: SSE2 conversion of double to uint must select the
 wrap-around result for each lane separately

---
 Vc/sse/casts.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Vc/sse/casts.h b/Vc/sse/casts.h
index e5de518..376ec53 100644
--- a/Vc/sse/casts.h
+++ b/Vc/sse/casts.h
@@ -98,7 +98,10 @@ Vc_INTRINSIC __m128i convert(__m128d v, ConvertTag<double, uint  >) {
     return blendv_epi8(_mm_cvttpd_epi32(v),
                        _mm_xor_si128(_mm_cvttpd_epi32(_mm_sub_pd(v, _mm_set1_pd(0x80000000u))),
                                      _mm_cvtsi64_si128(0x8000000080000000ull)),
-                       _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))));
+                       // the 64-bit lanes of the mask must line up with the 32-bit results
+                       _mm_shuffle_epi32(
+                           _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))),
+                           _MM_SHUFFLE(3, 1, 2, 0)));
 #endif
 }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , uint  >) { return v; }
-- 
2.43.0


From 1d90a1a5f9ef681b34e487e78ee6432cfb527269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:34 +0000
Subject: [PATCH 11/30] fix: masked min()/max() of floating-point vectors must
 ignore inactive lanes; float_v::minIndex() must return the index, not its
 float representation

---
 Vc/avx/vector.tcc | 10 +++++++---
 Vc/sse/vector.tcc |  8 ++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 15c6215..4ecb1e4 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -570,7 +570,7 @@ template <> Vc_INTRINSIC std::pair<AVX2::float_v, int> AVX2::float_v::minIndex()
 
     idx = _mm256_blendv_ps(idy, idx, less);
 
-    const auto index = _mm_cvtsi128_si32(AVX::avx_cast<__m128i>(idx));
+    const int index = _mm_cvttss_si32(AVX::lo128(idx));  // idx holds floats
 #ifdef Vc_GNU_ASM
     __asm__ __volatile__(""); // help GCC to order the instructions better
 #endif
@@ -613,13 +613,17 @@ template<typename T> template<typename BinaryOperation> Vc_ALWAYS_INLINE AVX2::V
 
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::min(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::max();
+    // the neutral element; numeric_limits is not specialized for floating-point vectors
+    using Lim = std::numeric_limits<T>;
+    AVX2::Vector<T> tmp(Lim::has_infinity ? Lim::infinity() : Lim::max());
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::max(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::min();
+    // the neutral element; numeric_limits is not specialized for floating-point vectors
+    using Lim = std::numeric_limits<T>;
+    AVX2::Vector<T> tmp(Lim::has_infinity ? static_cast<T>(-Lim::infinity()) : Lim::lowest());
     tmp(m) = *this;
     return tmp.max();
 }
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index 0d581a3..7b1b3d5 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -438,13 +438,17 @@ template<> Vc_INTRINSIC Vc_PURE unsigned int SSE::uint_v::product() const
 #endif
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::min(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::max();
+    // the neutral element; numeric_limits is not specialized for floating-point vectors
+    using Lim = std::numeric_limits<T>;
+    Vector<T, VectorAbi::Sse> tmp(Lim::has_infinity ? Lim::infinity() : Lim::max());
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::max(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::min();
+    // the neutral element; numeric_limits is not specialized for floating-point vectors
+    using Lim = std::numeric_limits<T>;
+    Vector<T, VectorAbi::Sse> tmp(Lim::has_infinity ? static_cast<T>(-Lim::infinity()) : Lim::lowest());
     tmp(m) = *this;
     return tmp.max();
 }
-- 
2.43.0


From e69218f29796347449092ee307ecde657f0318b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 12/30] fix: the AVX short IndexesFromZero table is loaded with
 32-byte aligned loads and must be aligned accordingly

---
 Vc/avx/const_data.h | 2 +-
 src/const.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/avx/const_data.h b/Vc/avx/const_data.h
index 9d0a0c1..2c74e78 100644
--- a/Vc/avx/const_data.h
+++ b/Vc/avx/const_data.h
@@ -37,7 +37,7 @@ namespace AVX
 {
 
 alignas(64) extern const unsigned int   _IndexesFromZero32[ 8];
-alignas(16) extern const unsigned short _IndexesFromZero16[16];
+alignas(32) extern const unsigned short _IndexesFromZero16[16];
 alignas(16) extern const unsigned char  _IndexesFromZero8 [32];
 
 struct alignas(64) c_general
diff --git a/src/const.cpp b/src/const.cpp
index 94dd65a..b39949f 100644
--- a/src/const.cpp
+++ b/src/const.cpp
@@ -45,7 +45,7 @@ namespace AVX
 
     // cacheline 1
     alignas(64) extern const unsigned int   _IndexesFromZero32[ 8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
-    alignas(16) extern const unsigned short _IndexesFromZero16[16] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 };
+    alignas(32) extern const unsigned short _IndexesFromZero16[16] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 };
     alignas(16) extern const unsigned char  _IndexesFromZero8 [32] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31 };
 
     template <>
-- 
2.43.0


From 11d8c766440eded81b5f2689379bb7f1549078f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 13/30] fix: SSE2 round() for large values, NaN and the sign of
 zero

---
 Vc/sse/vectorhelper.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/Vc/sse/vectorhelper.h b/Vc/sse/vectorhelper.h
index e0164ae..9d602cf 100644
--- a/Vc/sse/vectorhelper.h
+++ b/Vc/sse/vectorhelper.h
@@ -210,8 +210,16 @@ namespace SSE
 #ifdef Vc_IMPL_SSE4_1
                 return _mm_round_pd(a, _MM_FROUND_NINT);
 #else
-                //XXX: slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_pd(_mm_cvtpd_epi32(a));
+                // adding 2^52 leaves no bits for the fraction, so the addition rounds. Values that
+                // are not less than 2^52 have no fraction; they and NaN are returned unchanged.
+                const VectorType limit = _mm_set1_pd(4503599627370496.);  // 2^52
+                const VectorType abs_a = abs(a);
+                const VectorType rounded =
+                    _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_a, limit), limit),
+                              _mm_and_pd(a, _mm_setsignmask_pd()));
+                const VectorType no_fraction = _mm_cmpnlt_pd(abs_a, limit);
+                return _mm_or_pd(_mm_and_pd(no_fraction, a),
+                                 _mm_andnot_pd(no_fraction, rounded));
 #endif
             }
         };
@@ -292,8 +300,15 @@ namespace SSE
 #ifdef Vc_IMPL_SSE4_1
                 return _mm_round_ps(a, _MM_FROUND_NINT);
 #else
-                //XXX slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_ps(_mm_cvtps_epi32(a));
+                // values that are not less than 2^23 have no fraction; they and NaN are returned
+                // unchanged. The conversion to int loses the sign of zero.
+                const VectorType rounded =
+                    _mm_or_ps(_mm_cvtepi32_ps(_mm_cvtps_epi32(a)),
+                              _mm_and_ps(a, _mm_setsignmask_ps()));
+                const VectorType no_fraction =
+                    _mm_cmpnlt_ps(abs(a), _mm_set1_ps(8388608.f));  // 2^23
+                return _mm_or_ps(_mm_and_ps(no_fraction, a),
+                                 _mm_andnot_ps(no_fraction, rounded));
 #endif
             }
         };
-- 
2.43.0


From c11aec8998b39969d0792718c2a776e9d021f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 14/30] fix: SSE2 trunc()/floor()/ceil() for the sign of zero
 and for doubles not less than 2^52

---
 Vc/sse/math.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index ed399ce..e53e7f6 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -118,7 +118,9 @@ inline SSE::float_v ceil(SSE::float_v::AsArg v) { return _mm_ceil_ps(v.data());
 #else
 inline SSE::Vector<float> trunc(SSE::Vector<float> x)
 {
-    const auto truncated = _mm_cvtepi32_ps(_mm_cvttps_epi32(x.data()));
+    // the conversion to int loses the sign of zero
+    const auto truncated = _mm_or_ps(_mm_cvtepi32_ps(_mm_cvttps_epi32(x.data())),
+                                     _mm_and_ps(x.data(), SSE::_mm_setsignmask_ps()));
     const auto no_fractional_values = _mm_castsi128_ps(_mm_cmplt_epi32(
         _mm_and_si128(_mm_castps_si128(x.data()), _mm_set1_epi32(0x7f800000u)),
         _mm_set1_epi32(0x4b000000)));  // the exponent is so large that no mantissa bits
@@ -138,10 +140,15 @@ inline SSE::Vector<double> trunc(SSE::Vector<double> x)
     // abs(x)` holds, so subtract 1 to truncated if `abs(x) < truncated`
     truncated = _mm_sub_pd(truncated,
                            _mm_and_pd(_mm_cmplt_pd(abs_x, truncated), _mm_set1_pd(1.)));
-    // finally, fix the sign bit:
-    return _mm_or_pd(
+    // fix the sign bit:
+    truncated = _mm_or_pd(
         _mm_and_pd(_mm_castsi128_pd(_mm_set1_epi64x(0x8000000000000000ull)), x.data()),
         truncated);
+    // finally, values without fractional bits (and NaN) are the result as they are; the
+    // addition above may have rounded them
+    const auto no_fractional_values = _mm_cmpnlt_pd(abs_x, min_no_fractional_bits);
+    return _mm_or_pd(_mm_and_pd(no_fractional_values, x.data()),
+                     _mm_andnot_pd(no_fractional_values, truncated));
 }
 
 template <typename T> inline SSE::Vector<T> floor(SSE::Vector<T> x)
-- 
2.43.0


From 44d6eed0ded8bc4687f089aa0f820506e45e83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 15/30] fix: scalar round() where x + 0.5 is not exact and for
 the sign of zero

---
 Vc/scalar/math.h | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/Vc/scalar/math.h b/Vc/scalar/math.h
index 469a35f..54fc2c0 100644
--- a/Vc/scalar/math.h
+++ b/Vc/scalar/math.h
@@ -184,23 +184,15 @@ template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> round(const Scala
     return x;
 }
 
-namespace
-{
-    template<typename T> bool _realIsEvenHalf(T x) {
-        const T two = 2;
-        const T half = 0.5;
-        const T f = std::floor(x * half) * two;
-        return (x - f) == half;
-    }
-} // namespace
 template<> Vc_ALWAYS_INLINE Scalar::Vector<float>  round(const Scalar::Vector<float>  &x)
 {
-    return Scalar::float_v(std::floor(x.data() + 0.5f) - (_realIsEvenHalf(x.data()) ? 1.f : 0.f));
+    // x + 0.5f is not exact for all x, so leave the rounding (to even) to the standard library
+    return Scalar::float_v(std::nearbyint(x.data()));
 }
 
 template<> Vc_ALWAYS_INLINE Scalar::Vector<double> round(const Scalar::Vector<double> &x)
 {
-    return Scalar::double_v(std::floor(x.data() + 0.5 ) - (_realIsEvenHalf(x.data()) ? 1.  : 0. ));
+    return Scalar::double_v(std::nearbyint(x.data()));
 }
 
 template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> reciprocal(const Scalar::Vector<T> &x)
-- 
2.43.0


From e0ccf8d56ce5c9cfdddf896ab17a30120fef0206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 16/30] fix: frexp() of denormal values (SSE, AVX)

---
 Vc/avx/math.h | 30 +++++++++++++++++++++++-------
 Vc/sse/math.h | 20 +++++++++++++++-----
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/Vc/avx/math.h b/Vc/avx/math.h
index d5f8491..1e98ec7 100644
--- a/Vc/avx/math.h
+++ b/Vc/avx/math.h
@@ -158,14 +158,19 @@ Vc_INTRINSIC Vc_CONST AVX2::double_v copysign(AVX2::double_v::AsArg mag,
  */
 inline AVX2::double_v frexp(AVX2::double_v::AsArg v, SimdArray<int, 4> *e)
 {
+    // denormal values are scaled by 2^54 first
+    const AVX2::double_m denormal = abs(v) < AVX2::double_v(2.2250738585072014e-308);
+    AVX2::double_v x = v;
+    x(denormal) = v * AVX2::double_v(18014398509481984.);
     const __m256d exponentBits = AVX::Const<double>::exponentMask().dataD();
-    const __m256d exponentPart = _mm256_and_pd(v.data(), exponentBits);
+    const __m256d exponentPart = _mm256_and_pd(x.data(), exponentBits);
     auto lo = AVX::avx_cast<__m128i>(AVX::lo128(exponentPart));
     auto hi = AVX::avx_cast<__m128i>(AVX::hi128(exponentPart));
     lo = _mm_sub_epi32(_mm_srli_epi64(lo, 52), _mm_set1_epi64x(0x3fe));
     hi = _mm_sub_epi32(_mm_srli_epi64(hi, 52), _mm_set1_epi64x(0x3fe));
     SSE::int_v exponent = Mem::shuffle<X0, X2, Y0, Y2>(lo, hi);
-    const __m256d exponentMaximized = _mm256_or_pd(v.data(), exponentBits);
+    exponent(simd_cast<SSE::int_m>(denormal)) -= 54;
+    const __m256d exponentMaximized = _mm256_or_pd(x.data(), exponentBits);
     AVX2::double_v ret =
         _mm256_and_pd(exponentMaximized,
                       _mm256_broadcast_sd(reinterpret_cast<const double *>(&AVX::c_general::frexpMask)));
@@ -179,9 +184,13 @@ inline AVX2::double_v frexp(AVX2::double_v::AsArg v, SimdArray<int, 4> *e)
 #ifdef Vc_IMPL_AVX2
 inline SimdArray<double, 8> frexp(const SimdArray<double, 8> &v, SimdArray<int, 8> *e)
 {
+    // denormal values are scaled by 2^54 first
+    const auto denormal = abs(v) < SimdArray<double, 8>(2.2250738585072014e-308);
+    SimdArray<double, 8> x = v;
+    x(denormal) = v * SimdArray<double, 8>(18014398509481984.);
     const __m256d exponentBits = AVX::Const<double>::exponentMask().dataD();
-    const __m256d w[2] = {internal_data(internal_data0(v)).data(),
-                          internal_data(internal_data1(v)).data()};
+    const __m256d w[2] = {internal_data(internal_data0(x)).data(),
+                          internal_data(internal_data1(x)).data()};
     const __m256i exponentPart[2] = {
         _mm256_castpd_si256(_mm256_and_pd(w[0], exponentBits)),
         _mm256_castpd_si256(_mm256_and_pd(w[1], exponentBits))};
@@ -207,7 +216,9 @@ inline SimdArray<double, 8> frexp(const SimdArray<double, 8> &v, SimdArray<int,
     const auto zeroMask = v == v.Zero();
     ret(isnan(v) || !isfinite(v) || zeroMask) = v;
     internal_data(*e) =
-        Detail::andnot_(simd_cast<AVX2::int_m>(zeroMask).dataI(), exponent);
+        Detail::andnot_(simd_cast<AVX2::int_m>(zeroMask).dataI(),
+                        _mm256_sub_epi32(exponent, Detail::and_(simd_cast<AVX2::int_m>(denormal).dataI(),
+                                                                _mm256_set1_epi32(54))));
     return ret;
 }
 #endif  // Vc_IMPL_AVX2
@@ -231,9 +242,14 @@ inline AVX2::float_v frexp(AVX2::float_v::AsArg v, SimdArray<int, 8> *e)
 {
     using namespace Detail;
     using namespace AVX2;
+    // denormal values are scaled by 2^25 first
+    const AVX2::float_m denormal = Vc::abs(AVX2::float_v(v)) < AVX2::float_v(1.17549435e-38f);
+    AVX2::float_v x = v;
+    x(denormal) = v * AVX2::float_v(33554432.f);
     const __m256 exponentBits = Const<float>::exponentMask().data();
-    *e = extractExponent(and_(v.data(), exponentBits));
-    const __m256 exponentMaximized = or_(v.data(), exponentBits);
+    *e = extractExponent(and_(x.data(), exponentBits));
+    where(simd_cast<decltype(*e == *e)>(denormal), *e) -= 25;
+    const __m256 exponentMaximized = or_(x.data(), exponentBits);
     AVX2::float_v ret = _mm256_and_ps(exponentMaximized, avx_cast<__m256>(set1_epi32(0xbf7fffffu)));
     ret(isnan(v) || !isfinite(v) || v == AVX2::float_v::Zero()) = v;
     e->setZero(simd_cast<decltype(*e == *e)>(v == AVX2::float_v::Zero()));
diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index e53e7f6..6cd7dd6 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -56,11 +56,16 @@ Vc_INTRINSIC Vc_CONST SSE::double_v copysign(SSE::double_v mag, SSE::double_v si
 inline SSE::double_v frexp(const SSE::double_v &v,
                            SimdArray<int, 2, Scalar::int_v, 1> *e)
 {
+    // denormal values are scaled by 2^54 first
+    const SSE::double_m denormal = abs(v) < SSE::double_v(2.2250738585072014e-308);
+    SSE::double_v x = v;
+    x(denormal) = v * SSE::double_v(18014398509481984.);
     const __m128i exponentBits = SSE::Const<double>::exponentMask().dataI();
-    const __m128i exponentPart = _mm_and_si128(_mm_castpd_si128(v.data()), exponentBits);
+    const __m128i exponentPart = _mm_and_si128(_mm_castpd_si128(x.data()), exponentBits);
     SSE::int_v exponent =
         _mm_sub_epi32(_mm_srli_epi64(exponentPart, 52), _mm_set1_epi32(0x3fe));
-    const __m128d exponentMaximized = _mm_or_pd(v.data(), _mm_castsi128_pd(exponentBits));
+    exponent -= SSE::int_v(_mm_and_si128(denormal.dataI(), _mm_set1_epi32(54)));
+    const __m128d exponentMaximized = _mm_or_pd(x.data(), _mm_castsi128_pd(exponentBits));
     SSE::double_v ret = _mm_and_pd(
         exponentMaximized,
         _mm_load_pd(reinterpret_cast<const double *>(&SSE::c_general::frexpMask[0])));
@@ -73,11 +78,16 @@ inline SSE::double_v frexp(const SSE::double_v &v,
 }
 inline SSE::float_v frexp(const SSE::float_v &v, SimdArray<int, 4, SSE::int_v, 4> *e)
 {
+    // denormal values are scaled by 2^25 first
+    const SSE::float_m denormal = abs(v) < SSE::float_v(1.17549435e-38f);
+    SSE::float_v x = v;
+    x(denormal) = v * SSE::float_v(33554432.f);
     const __m128i exponentBits = SSE::Const<float>::exponentMask().dataI();
-    const __m128i exponentPart = _mm_and_si128(_mm_castps_si128(v.data()), exponentBits);
+    const __m128i exponentPart = _mm_and_si128(_mm_castps_si128(x.data()), exponentBits);
     internal_data(*e) =
-        _mm_sub_epi32(_mm_srli_epi32(exponentPart, 23), _mm_set1_epi32(0x7e));
-    const __m128 exponentMaximized = _mm_or_ps(v.data(), _mm_castsi128_ps(exponentBits));
+        _mm_sub_epi32(_mm_sub_epi32(_mm_srli_epi32(exponentPart, 23), _mm_set1_epi32(0x7e)),
+                      _mm_and_si128(denormal.dataI(), _mm_set1_epi32(25)));
+    const __m128 exponentMaximized = _mm_or_ps(x.data(), _mm_castsi128_ps(exponentBits));
     SSE::float_v ret =
         _mm_and_ps(exponentMaximized, _mm_castsi128_ps(_mm_set1_epi32(0xbf7fffffu)));
     ret(isnan(v) || !isfinite(v) || v == SSE::float_v::Zero()) = v;
-- 
2.43.0


From 5855972b75dab5a7c5f1fd546a99a7ddb5d90fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 17/30] fix: ldexp() of infinities and NaN changed the value
 (SSE, AVX)

---
 Vc/avx/math.h | 5 +++--
 Vc/sse/math.h | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/math.h b/Vc/avx/math.h
index 1e98ec7..0ca9a20 100644
--- a/Vc/avx/math.h
+++ b/Vc/avx/math.h
@@ -264,7 +264,7 @@ inline AVX2::float_v frexp(AVX2::float_v::AsArg v, SimdArray<int, 8> *e)
 inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero() || !isfinite(v)));
     const __m256i exponentBits =
         AVX::concat(_mm_slli_epi64(_mm_unpacklo_epi32(e.data(), e.data()), 52),
                     _mm_slli_epi64(_mm_unpackhi_epi32(e.data(), e.data()), 52));
@@ -273,7 +273,8 @@ inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e
 }
 inline AVX2::float_v ldexp(AVX2::float_v::AsArg v, SimdArray<int, 8> e)
 {
-    e.setZero(simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero()));
+    e.setZero(
+        simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero() || !isfinite(v)));
     e <<= 23;
 #ifdef Vc_IMPL_AVX2
     return {AVX::avx_cast<__m256>(
diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index 6cd7dd6..839691d 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -103,7 +103,7 @@ inline SSE::double_v ldexp(SSE::double_v::AsArg v,
                            const SimdArray<int, 2, Scalar::int_v, 1> &_e)
 {
     SSE::int_v e = _mm_setr_epi32(_e[0], 0, _e[1], 0);
-    e.setZero((v == SSE::double_v::Zero()).dataI());
+    e.setZero((v == SSE::double_v::Zero() || !isfinite(v)).dataI());
     const __m128i exponentBits = _mm_slli_epi64(e.data(), 52);
     return _mm_castsi128_pd(_mm_add_epi64(_mm_castpd_si128(v.data()), exponentBits));
 }
@@ -111,7 +111,7 @@ inline SSE::float_v ldexp(SSE::float_v::AsArg v,
                           const SimdArray<int, 4, SSE::int_v, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero() || !isfinite(v)));
     return reinterpret_components_cast<SSE::float_v>(
         reinterpret_components_cast<SSE::int_v>(v) + (e << 23));
 }
-- 
2.43.0


From e3af881b80aedde0c8946d589e20b04048b89de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 18/30] fix: Iterator::operator[] must index relative to the
 iterator's position

The subscript was applied to the container instead of to the iterator, thus
it[n] differed from *(it + n) for every iterator other than begin().
---
 Vc/common/iterators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/iterators.h b/Vc/common/iterators.h
index 071482a..7598f80 100644
--- a/Vc/common/iterators.h
+++ b/Vc/common/iterators.h
@@ -55,7 +55,7 @@ public:
     using difference_type = int;
     using reference = value_type;
     Vc_ALWAYS_INLINE reference operator*() const { return v()[i()]; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i2]; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i() + i2]; }
 
 private:
     Vc_INTRINSIC V &v() const { return *static_cast<const Iterator<V> *>(this)->v; }
@@ -73,7 +73,7 @@ public:
     using difference_type = int;
     using reference = Vc::Detail::ElementReference<V, IteratorBase>;
     Vc_ALWAYS_INLINE reference operator*() const { return {*v(), i()}; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i2}; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i() + i2}; }
 
 private:
     Vc_INTRINSIC V *v() const { return static_cast<const Iterator<V> *>(this)->v; }
-- 
2.43.0


From c7638418a6040777d059de6843df5952719b942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 19/30] fix: SimdArray::shifted() with storage parts of
 different size

A negative shift moved the first instead of the last lanes of the lower part
into the upper part, and shifted zeros in for amounts between the two sizes.
A positive shift larger than the upper part read past its end.
---
 Vc/common/simdarray.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 0434560..741ce0c 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -1133,8 +1133,14 @@ public:
             return *this;
         }
         if (amount < 0) {
+            if (amount > -SSize1) {
+                // the lanes shifted into data1 are the last ones of data0
+                return {data0.shifted(amount),
+                        data1.shifted(amount, data0.shifted(SSize0 - SSize1))};
+            }
             if (amount > -SSize0) {
-                return {data0.shifted(amount), data1.shifted(amount, data0)};
+                return {data0.shifted(amount),
+                        simd_cast<storage_type1>(data0.shifted(amount + SSize0))};
             }
             if (amount == -SSize0) {
                 return {storage_type0(0), simd_cast<storage_type1>(data0)};
@@ -1182,7 +1188,7 @@ public:
             i += amount;
             if (i < SSize) {
                 return operator[](i);
-            } else if (i < 2 * SSize) {
+            } else if (i < SSize + int(NN)) {
                 return shiftIn[i - SSize];
             }
             return 0;
-- 
2.43.0


From 480455458d4ec1e0c2cd3e334dbe326b3c7c81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 20/30] fix: gathers of 8-bit and 16-bit integers must not read
 behind the element

The AVX2 implementation loaded 32 bits at the address of every 8- or 16-bit
element, i.e. up to three bytes which do not belong to any gathered element:
a gather of the last element of an array read past its end.
---
 Vc/avx/vector.h | 57 +++----------------------------------------------
 Vc/sse/vector.h | 47 +++-------------------------------------
 2 files changed, 6 insertions(+), 98 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index e14fd1c..9308248 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -225,60 +225,9 @@ public:
         }
 
         ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx0)),
-                                      int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    *this = (simd_cast<Signed>(*this) << 8) >> 8;  // sign extend
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            const auto k0 = simd_cast<AVX2::int_m, 0>(k).data();
-            const auto k1 = simd_cast<AVX2::int_m, 1>(k).data();
-            auto v = simd_cast<Vector>(
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k0, aliasing_cast<int>(args.address), idx0)),
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k1, aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    v = (simd_cast<Signed>(v) << 8) >> 8;  // sign extend
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
+        // 8-bit and 16-bit integers are gathered one by one (the generic implementation):
+        // the gather instructions load at least 32 bits per entry, i.e. they would access
+        // memory behind the addressed object.
 
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 8b7480a..6c95a8e 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -177,50 +177,9 @@ template <typename T> class Vector<T, VectorAbi::Sse>
         }
 
         ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx = simd_cast<int_v>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(
-                AVX::gather<sizeof(MT) * Scale>(aliasing_cast<int>(args.address), idx)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    d.v() = _mm_srai_epi16(_mm_slli_epi16(d.v(), 8), 8);
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            auto v = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                _mm256_setzero_si256(), simd_cast<AVX2::int_m>(k).data(),
-                aliasing_cast<int>(args.address),
-                simd_cast<int_v>(args.indexes).data())));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    v.data() = _mm_srai_epi16(_mm_slli_epi16(v.data(), 8), 8);
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
+        // 8-bit and 16-bit integers are gathered one by one (the generic implementation):
+        // the gather instructions load at least 32 bits per entry, i.e. they would access
+        // memory behind the addressed object.
 
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
-- 
2.43.0


From da297ef6bfc7ebf5346f379de6f9a794eaa22273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 21/30] fix: AVX2 deinterleave of unsigned short into uint_v
 must zero-extend

---
 Vc/avx/deinterleave.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/deinterleave.tcc b/Vc/avx/deinterleave.tcc
index 2f36825..0880ce1 100644
--- a/Vc/avx/deinterleave.tcc
+++ b/Vc/avx/deinterleave.tcc
@@ -249,11 +249,11 @@ inline void deinterleave(AVX2::uint_v &a, AVX2::uint_v &b, const unsigned short
     const AVX2::ushort_v tmp0(m, f);
     const m256i tmp = tmp0.data();
     a.data() = concat(
-                _mm_srai_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
-                _mm_srai_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
+                _mm_srli_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
+                _mm_srli_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
     b.data() = concat(
-                _mm_srai_epi32(lo128(tmp), 16),
-                _mm_srai_epi32(hi128(tmp), 16));
+                _mm_srli_epi32(lo128(tmp), 16),
+                _mm_srli_epi32(hi128(tmp), 16));
 }
 
 template <typename Flags>
-- 
2.43.0


From 8535e628c649918fc17d9b2b4d263f485bbe4613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 22/30] fix: transpose() must not keep references to its own
 parameters

---
 Vc/common/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/transpose.h b/Vc/common/transpose.h
index f8928f9..b0b1892 100644
--- a/Vc/common/transpose.h
+++ b/Vc/common/transpose.h
@@ -46,7 +46,7 @@ template <int LhsLength, size_t RhsLength> struct TransposeTag {
 };
 }  // namespace Common
 
-template <typename... Vs> Common::TransposeProxy<Vs...> transpose(Vs... vs)
+template <typename... Vs> Common::TransposeProxy<Vs...> transpose(const Vs &... vs)
 {
     return {vs...};
 }
-- 
2.43.0


From 29468375ea079313f7b510bb27388e70b3d60ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 23/30] fix: Memory::fromRawData must keep the data it is given

---
 Vc/common/memory.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 8275dfd..2c4b08b 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -262,13 +262,15 @@ class Memory<V, Size, 0u, InitPadding> :
              */
             static Vc_ALWAYS_INLINE Vc_CONST Memory<V, Size, 0u, false> &fromRawData(EntryType *ptr)
             {
-                // DANGER! This placement new has to use the right address. If the compiler decides
+                // DANGER! This has to use the right address. If the compiler decides
                 // RowMemory requires padding before the actual data then the address has to be adjusted
                 // accordingly
+                // Note: a placement new would start the lifetime of a new object, whose contents
+                // are indeterminate; the compiler may then drop earlier stores to the memory.
                 char *addr = reinterpret_cast<char *>(ptr);
                 typedef Memory<V, Size, 0u, false> MM;
                 addr -= offsetof(MM, m_mem);
-                return *new(addr) MM;
+                return *reinterpret_cast<MM *>(addr);
             }
 
             /**
-- 
2.43.0


From 7a7c1e47123a1dfaa1f7392699d75b4ca8534e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 24/30] fix: Memory<V>(0) must not write in front of its
 allocation

---
 Vc/common/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 2c4b08b..640b468 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -399,7 +399,9 @@ class Memory<V, Size, 0u, InitPadding> :
             m_mem(Vc::malloc<EntryType, Vc::AlignOnVector>(m_vectorsCount))
         {
             m_vectorsCount /= V::Size;
-            Base::lastVector() = V::Zero();
+            if (m_vectorsCount > 0) {
+                Base::lastVector() = V::Zero();
+            }
         }
 
         /**
-- 
2.43.0


From 30dac33fec34609a555093d52acfb36e875078e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 25/30] fix: aligned allocation must fail if the size is not
 representable

---
 Vc/common/malloc.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Vc/common/malloc.h b/Vc/common/malloc.h
index eec335e..d2caea4 100644
--- a/Vc/common/malloc.h
+++ b/Vc/common/malloc.h
@@ -52,6 +52,9 @@ template <size_t X> static constexpr size_t nextMultipleOf(size_t value)
 
 template <std::size_t alignment> Vc_INTRINSIC void *aligned_malloc(std::size_t n)
 {
+    if (n > std::size_t(-1) - (alignment - 1)) {
+        return nullptr;  // the padded size is not representable
+    }
 #ifdef __MIC__
     return _mm_malloc(nextMultipleOf<alignment>(n), alignment);
 #elif defined(_WIN32)
@@ -135,6 +138,9 @@ Vc_ALWAYS_INLINE void free(void *p)
 template<typename T, Vc::MallocAlignment A>
 Vc_ALWAYS_INLINE T *malloc(size_t n)
 {
+    if (n > size_t(-1) / sizeof(T)) {
+        return nullptr;  // the size in Bytes is not representable
+    }
     return static_cast<T *>(Common::malloc<A>(n * sizeof(T)));
 }
 
-- 
2.43.0


From e3bc148c9d6b5a3b0d3686829a1dc62900355d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 26/30] fix: Allocator::max_size() must leave room for the
 alignment bytes

---
 Vc/Allocator | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/Allocator b/Vc/Allocator
index 60febff..3c3a19d 100644
--- a/Vc/Allocator
+++ b/Vc/Allocator
@@ -207,7 +207,7 @@ namespace Vc_VERSIONED_NAMESPACE
             ::operator delete(p);
         }
 
-        size_type max_size() const throw() { return size_t(-1) / sizeof(T); }
+        size_type max_size() const throw() { return (size_t(-1) - ExtraBytes) / sizeof(T); }
 
 #ifdef Vc_MSVC
         // MSVC brokenness: the following function is optional - just doesn't compile without it
-- 
2.43.0


From a5b922595dbadf4c7cd583e540fb14095534b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 27/30] fix: CpuId decodes the extended processor family from
 the right bits

---
 src/cpuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index e93a1cb..2b7ba6d 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -147,13 +147,13 @@ void CpuId::init()
     s_processorFamily = (eax & 0x00000f00) >> 8;
     if (isAmd()) {
         if (s_processorFamily >= 0xf) {
-            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
             s_processorFamily += processorFamilyExt;
             const uchar processorModelExt = (eax & 0x000f0000) >> 12;
             s_processorModel += processorModelExt;
         }
     } else if (s_processorFamily == 0xf) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
@@ -161,7 +161,7 @@ void CpuId::init()
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
     } else if (s_processorFamily == 0xB) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
-- 
2.43.0


From 2a43cd73a24c75b1d76f2529a66dd36afd303c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 28/30] fix: CpuId must read the L3 associativity of AMD
 processors from the L3 register

---
 src/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 2b7ba6d..f477fed 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -198,7 +198,7 @@ void CpuId::init()
         s_L2Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
         s_L3DataLineSize = edx & 0xff;
         s_L3Data = (edx >> 18) * 512 * 1024;
-        s_L3Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
+        s_L3Associativity = CpuIdAmdAssociativityTable((edx >> 12) & 0xf);
         return;
     }
 
-- 
2.43.0


From bceb23f9875eb58f9ecbb2d67bd9e3cfb8d8df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 29/30] fix: L1 instruction cache descriptors must not change
 the L1 data cache values

---
 src/cpuid.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index f477fed..00dbcac 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -317,17 +317,14 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
     case 0x06:
         s_L1Instruction = 8 * 1024;
         s_L1InstructionLineSize = 32;
-        s_L1Associativity = 4;
         break;
     case 0x08:
         s_L1Instruction = 16 * 1024;
         s_L1InstructionLineSize = 32;
-        s_L1Associativity = 4;
         break;
     case 0x09:
         s_L1Instruction = 32 * 1024;
         s_L1InstructionLineSize = 64;
-        s_L1Associativity = 4;
         break;
     case 0x0A:
         s_L1Data = 8 * 1024;
@@ -380,9 +377,8 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L1Associativity = 8;
         break;
     case 0x30:
-        s_L1Data = 32 * 1024;
-        s_L1DataLineSize = 64;
-        s_L1Associativity = 8;
+        s_L1Instruction = 32 * 1024;
+        s_L1InstructionLineSize = 64;
         break;
     case 0x40:
         s_noL2orL3 = true;
-- 
2.43.0


From d925e430fd686b6d708a2b09cce422ba2194da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 30/30] fix: CpuId must not interpret CPUID leaves the
 processor does not have

---
 src/cpuid.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 00dbcac..a2252f4 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -139,6 +139,7 @@ void CpuId::init()
 
     Vc_CPUID(0);
     s_ecx0 = ecx;
+    const uint maxLeaf = eax;
 
     Vc_CPUID(1);
     s_processorFeaturesC = ecx;
@@ -174,13 +175,19 @@ void CpuId::init()
     ebx >>= 8;
     s_logicalProcessors = ebx & 0xff;
 
-    Vc_CPUID_C(7, 0);
-    s_processorFeatures7B = ebx;
-    s_processorFeatures7C = ecx;
+    // the answer to a leaf the processor does not have is the one to its last basic leaf
+    if (maxLeaf >= 7) {
+        Vc_CPUID_C(7, 0);
+        s_processorFeatures7B = ebx;
+        s_processorFeatures7C = ecx;
+    }
 
-    Vc_CPUID(0x80000001);
-    s_processorFeatures8C = ecx;
-    s_processorFeatures8D = edx;
+    Vc_CPUID(0x80000000);
+    if (eax >= 0x80000001u) {
+        Vc_CPUID(0x80000001);
+        s_processorFeatures8C = ecx;
+        s_processorFeatures8D = edx;
+    }
 
     if (isAmd()) {
         s_prefetch = cacheLineSize();
-- 
2.43.0

