From 3daf927993fb2b62151690df99fc9766b3b95493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 01/41] fix: padding divisor must be 1, not -1 (trap on minimum
 / padding)

---
 experimental/bits/simd_builtin.h | 42 +++++++++++---------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f048c07..93dc1d1 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1042,18 +1042,14 @@ template <int _UsedBytes>
 	  {
 	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __implicit_mask
 	      = __vector_bitcast<_Tp>(_S_implicit_mask<_Tp>());
-	    if constexpr (is_integral_v<_Tp>)
-	      return __or(__x, ~__implicit_mask);
-	    else
-	      {
-		_GLIBCXX_SIMD_USE_CONSTEXPR auto __one
-		  = __andnot(__implicit_mask,
-			     __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
-		// it's not enough to return `x | 1_in_padding` because the
-		// padding in x might be inf or nan (independent of
-		// __FINITE_MATH_ONLY__, because it's about padding bits)
-		return __or(__and(__x, __implicit_mask), __one);
-	      }
+	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __one
+	      = __andnot(__implicit_mask,
+			 __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
+	    // it's not enough to return `x | 1_in_padding` because the
+	    // padding in x might be inf or nan (independent of
+	    // __FINITE_MATH_ONLY__, because it's about padding bits), or -1,
+	    // which overflows (and traps) on division of the minimum value
+	    return __or(__and(__x, __implicit_mask), __one);
 	  }
       }
     // }}}
@@ -1193,22 +1189,12 @@ template <int _UsedBytes>
 	else
 	  {
 	    constexpr size_t _Np = _S_size<_Tp>;
-	    if constexpr (is_integral_v<typename _TVT::value_type>)
-	      return __x
-		     | __generate_vector<_Tp, _S_full_size<_Tp>>(
-		       [](auto __i) -> _Tp {
-			 if (__i < _Np)
-			   return 0;
-			 else
-			   return 1;
-		       });
-	    else
-	      return __make_dependent_t<_TV, _CommonImpl>::_S_blend(
-		       _S_implicit_mask<_Tp>(),
-		       _SimdWrapper<_Tp, _Np>(
-			 __vector_broadcast<_S_full_size<_Tp>>(_Tp(1))),
-		       _SimdWrapper<_Tp, _Np>(__x))
-		._M_data;
+	    return __make_dependent_t<_TV, _CommonImpl>::_S_blend(
+		     _S_implicit_mask<_Tp>(),
+		     _SimdWrapper<_Tp, _Np>(
+		       __vector_broadcast<_S_full_size<_Tp>>(_Tp(1))),
+		     _SimdWrapper<_Tp, _Np>(__x))
+	      ._M_data;
 	  }
       }
 
-- 
2.43.0


From d40609efd13e14e0ceaa4d2eed4d96843b6da874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 02/41] fix: 8/16-bit vector shifts by counts above the element
 width

---
 experimental/bits/simd_x86.h | 44 ++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d6dda28..eba9983 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1762,8 +1762,9 @@ template <typename _Abi>
 		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
 		return __x
 		       * __intrin_bitcast<_V>(
-			 __vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			   reinterpret_cast<_Float4>(__yu << 23)))
+			 (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			    reinterpret_cast<_Float4>(__yu << 23)))
+			  & 0xffff) // shifts > 15 must not affect the next element
 			 | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
 			      reinterpret_cast<_Float4>((__yu >> 16) << 23)))
 			    << 16));
@@ -1981,8 +1982,11 @@ template <typename _Abi>
 	    else if constexpr (__have_sse4_1
 			       && is_signed_v<_Up> && sizeof(__x) > 2)
 	      {
+		// y > 7 shifts in as many sign bits as y == 7
 		auto __mask = __vector_bitcast<_UChar>(
-		  __vector_bitcast<_UShort>(__iy) << 5);
+		  __vector_bitcast<_UShort>(
+		    _mm_min_epu8(__iy, _mm_set1_epi8(7)))
+		  << 5);
 		auto __maskl = [&]() {
 		  return __to_intrin(__vector_bitcast<_UShort>(__mask) << 8);
 		};
@@ -2012,11 +2016,9 @@ template <typename _Abi>
 		  _CommonImplX86::_S_blend_intrin(__maskl(), __to_intrin(__xl),
 						  __to_intrin(__xl1)));
 		return __intrin_bitcast<_V>(
-		  (__vector_bitcast<_Up>((__xh & short(0xff00)))
-		   | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					   >> 8))
-		  & ((__vector_bitcast<_Up>(__iy) & char(0xf8))
-		     == 0)); // y > 7 nulls the result
+		  __vector_bitcast<_Up>((__xh & short(0xff00)))
+		  | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					  >> 8));
 	      }
 	    else if constexpr (is_unsigned_v<_Up> && sizeof(__x) > 2) // SSE2
 	      {
@@ -2039,6 +2041,8 @@ template <typename _Abi>
 	    else if constexpr (sizeof(__x) > 2) // signed SSE2
 	      {
 		static_assert(is_signed_v<_Up>);
+		// y > 7 shifts in as many sign bits as y == 7
+		__y = __y > 7 ? _V() + _Up(7) : __y;
 		auto __maskh = __vector_bitcast<_UShort>(__y) << 5;
 		auto __maskl = __vector_bitcast<_UShort>(__y) << (5 + 8);
 		auto __xh = __vector_bitcast<short>(__x);
@@ -2059,11 +2063,9 @@ template <typename _Abi>
 		auto __xl1 = __xl >> 1;
 		__xh = __maskh > 0x7fff ? __xh1 : __xh;
 		__xl = __maskl > 0x7fff ? __xl1 : __xl;
-		__x = __vector_bitcast<_Up>((__xh & short(0xff00)))
-		      | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					      >> 8);
-		return __x
-		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
+		return __vector_bitcast<_Up>((__xh & short(0xff00)))
+		       | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					       >> 8);
 	      }
 	    else
 	      return __x >> __y;
@@ -2114,10 +2116,11 @@ template <typename _Abi>
 		auto __x128 = __vector_bitcast<_Up>(__ix);
 		//__mask *= 0x0808;
 		__mask = (__mask << 3) | (__mask << 11);
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __vector_bitcast<_Up>(
-		  _mm_blendv_epi8(__to_intrin(__x128), __m128i(),
-				  __to_intrin(__mask)));
+		// do __x128 = 0 (or all sign bits) where __y[4] is set
+		__x128 = __vector_bitcast<_Up>(_mm_blendv_epi8(
+		  __to_intrin(__x128),
+		  is_signed_v<_Up> ? __to_intrin(__x128 >> 15) : __m128i(),
+		  __to_intrin(__mask)));
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __vector_bitcast<_Up>(
 		  _mm_blendv_epi8(__to_intrin(__x128), __to_intrin(__x128 >> 8),
@@ -2142,8 +2145,11 @@ template <typename _Abi>
 		auto __mask = [](__vector_type16_t<_UShort> __kk) {
 		  return __vector_bitcast<short>(__kk) < 0;
 		};
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __mask(__k) ? decltype(__x128)() : __x128;
+		// do __x128 = 0 (or all sign bits) where __y[4] is set
+		if constexpr (is_signed_v<_Up>)
+		  __x128 = __mask(__k) ? __x128 >> 15 : __x128;
+		else
+		  __x128 = __mask(__k) ? decltype(__x128)() : __x128;
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __mask(__k += __k) ? __x128 >> 8 : __x128;
 		// do __x128 =>> 4 where __y[2] is set
-- 
2.43.0


From f928206f103e3b28e0c45e3097939386b766299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 03/41] fix: initialize the bits of a fixed_size mask

---
 experimental/bits/simd.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 4c89311..f0ec37b 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -988,7 +988,9 @@ template <size_t _Np, bool _Sanitized>
 
     static constexpr int _S_array_size = __div_roundup(_NBytes, sizeof(_Tp));
 
-    _Tp _M_bits[_S_array_size];
+    // Must be initialized, because a sanitized mask guarantees that the unused
+    // bits are zero and setting elements never touches these.
+    _Tp _M_bits[_S_array_size] = {};
 
     static constexpr int _S_unused_bits
       = _Np == 1 ? 0 : _S_array_size * sizeof(_Tp) * __CHAR_BIT__ - _Np;
-- 
2.43.0


From 8e0c6f97fa542a9afc4069d1600f111dbb8c8599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 04/41] fix: ignore padding bits in find_last_set of AVX-512
 masks

---
 experimental/bits/simd_x86.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index eba9983..bb77520 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5161,7 +5161,7 @@ template <typename _Abi>
       _S_find_last_set(simd_mask<_Tp, _Abi> __k)
       {
 	if constexpr (__is_avx512_abi<_Abi>())
-	  return std::__bit_width(__k._M_data._M_data) - 1;
+	  return std::__bit_width(_Abi::_S_masked(__k._M_data)._M_data) - 1;
 	else
 	  return _Base::_S_find_last_set(__k);
       }
-- 
2.43.0


From f908abb1758eb937670017fd33a921c6e0143df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 05/41] fix: to_native and to_compatible for masks,
 to_compatible for simd; clear padding in resizing casts of masks

---
 experimental/bits/simd.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index f0ec37b..212c3f3 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2991,8 +2991,10 @@ template <typename _Tp, typename _Up, typename _Ap>
   enable_if_t<is_simd_mask_v<_Tp>, _Tp>
   resizing_simd_cast(const simd_mask<_Up, _Ap>& __x)
   {
+    // elements of __x's padding must not become elements of the result
+    const simd_mask<_Up, _Ap> __k(__private_init, _Ap::_S_masked(__data(__x)));
     return {__private_init, _Tp::abi_type::_MaskImpl::template _S_convert<
-			      typename _Tp::simd_type::value_type>(__x)};
+			      typename _Tp::simd_type::value_type>(__k)};
   }
 } // namespace __proposed
 
@@ -3037,16 +3039,17 @@ template <typename _Tp, int _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == native_simd_mask<_Tp>::size()), native_simd_mask<_Tp>>
   to_native(const fixed_size_simd_mask<_Tp, _Np>& __x)
   {
-    return native_simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; });
+    return {__private_init,
+	    [&](auto __i) constexpr -> bool { return __x[__i]; }};
   }
 
 // to_compatible {{{2
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC enable_if_t<(_Np == simd<_Tp>::size()), simd<_Tp>>
   to_compatible(const simd<_Tp, simd_abi::fixed_size<_Np>>& __x)
   {
@@ -3055,11 +3058,14 @@ template <typename _Tp, size_t _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == simd_mask<_Tp>::size()), simd_mask<_Tp>>
   to_compatible(const simd_mask<_Tp, simd_abi::fixed_size<_Np>>& __x)
-  { return simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; }); }
+  {
+    return {__private_init,
+	    [&](auto __i) constexpr -> bool { return __x[__i]; }};
+  }
 
 // masked assignment [simd_mask.where] {{{1
 
-- 
2.43.0


From ef1695f4dcce2d817b730b7454606bd7b7261bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 06/41] fix: masked shift-assignment (where(k, v) <<= x) did
 not compile

---
 experimental/bits/simd.h         | 4 ++--
 experimental/bits/simd_builtin.h | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 212c3f3..9a3fa35 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3236,8 +3236,8 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
-    _GLIBCXX_SIMD_OP_(<<, _S_shift_left);
-    _GLIBCXX_SIMD_OP_(>>, _S_shift_right);
+    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left);
+    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 93dc1d1..d41f7f3 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2491,8 +2491,9 @@ template <typename _Abi>
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __op(_SuperImpl{}, __lhs, __rhs);
 	else
-	  __lhs = _CommonImpl::_S_blend(__k, __lhs,
-					__op(_SuperImpl{}, __lhs, __rhs));
+	  __lhs = _CommonImpl::_S_blend(
+	    __k, __lhs,
+	    _SimdWrapper<_Tp, _Np>(__op(_SuperImpl{}, __lhs, __rhs)));
       }
 
     template <typename _Op, typename _Tp, typename _K, size_t _Np>
-- 
2.43.0


From 5a3e4bb0cb951827772a8afef967d166a08e9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 07/41] fix: masked integer division must not trap on
 unselected elements

---
 experimental/bits/simd.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 9a3fa35..36b9c0a 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3231,8 +3231,6 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(+, _S_plus);
     _GLIBCXX_SIMD_OP_(-, _S_minus);
     _GLIBCXX_SIMD_OP_(*, _S_multiplies);
-    _GLIBCXX_SIMD_OP_(/, _S_divides);
-    _GLIBCXX_SIMD_OP_(%, _S_modulus);
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
@@ -3240,6 +3238,30 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
+    // Integer division must not trap on elements that are not selected.
+#define _GLIBCXX_SIMD_OP_(__op, __name)                                        \
+  template <typename _Up>                                                      \
+    _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
+    {                                                                          \
+      _Tp __divisor = value_type(1);                                           \
+      if constexpr (is_integral_v<value_type>)                                 \
+	_Impl::_S_masked_assign(__data(_M_k), __data(__divisor),               \
+				__to_value_type_or_member_type<_Tp>(           \
+				  static_cast<_Up&&>(__x)));                   \
+      else                                                                     \
+	__divisor = static_cast<_Up&&>(__x);                                   \
+      _Impl::template _S_masked_cassign(                                       \
+	__data(_M_k), __data(_M_value),                                        \
+	__to_value_type_or_member_type<_Tp>(__divisor),                        \
+	[](auto __impl, auto __lhs, auto __rhs) constexpr {                    \
+	return __impl.__name(__lhs, __rhs);                                    \
+	});                                                                    \
+    }                                                                          \
+  static_assert(true)
+    _GLIBCXX_SIMD_OP_(/, _S_divides);
+    _GLIBCXX_SIMD_OP_(%, _S_modulus);
+#undef _GLIBCXX_SIMD_OP_
+
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
     {
       __data(_M_value)
-- 
2.43.0


From 9cd01dee4b261702632b77a8637f7e8b0f33549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 08/41] fix: masked stores must not fault on unselected
 elements (maskmovdqu)

---
 experimental/bits/simd_x86.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index bb77520..a98628f 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1187,8 +1187,10 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 			       __vector_bitcast<double>(__vi));
-	    else if constexpr (__have_sse2)
-	      _mm_maskmoveu_si128(__vi, __ki, reinterpret_cast<char*>(__mem));
+	    else // maskmovdqu may fault on elements that are not selected
+	      _BitOps::_S_bit_iteration(
+		_MaskImpl::_S_to_bits(__k),
+		[&](auto __i) constexpr { __mem[__i] = __v[__i]; });
 	  }
 	else if constexpr (sizeof(__v) == 32)
 	  {
@@ -1213,13 +1215,10 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm256_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 				  __vector_bitcast<double>(__v));
-	    else if constexpr (__have_sse2)
-	      {
-		_mm_maskmoveu_si128(__lo128(__vi), __lo128(__ki),
-				    reinterpret_cast<char*>(__mem));
-		_mm_maskmoveu_si128(__hi128(__vi), __hi128(__ki),
-				    reinterpret_cast<char*>(__mem) + 16);
-	      }
+	    else // maskmovdqu may fault on elements that are not selected
+	      _BitOps::_S_bit_iteration(
+		_MaskImpl::_S_to_bits(__k),
+		[&](auto __i) constexpr { __mem[__i] = __v[__i]; });
 	  }
 	else
 	  __assert_unreachable<_Tp>();
-- 
2.43.0


From ecac5cf672ae14dc2bfd7f16b86b0f49f3e8cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 09/41] fix: round only once when converting 64-bit integers to
 float

---
 experimental/bits/simd_x86_conversions.h | 62 ++----------------------
 1 file changed, 4 insertions(+), 58 deletions(-)

diff --git a/experimental/bits/simd_x86_conversions.h b/experimental/bits/simd_x86_conversions.h
index 899d031..aa9e3b6 100644
--- a/experimental/bits/simd_x86_conversions.h
+++ b/experimental/bits/simd_x86_conversions.h
@@ -667,9 +667,7 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepi64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepi64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  return __intrin_bitcast<_To>(
-	    _mm512_cvtpd_ps(__convert_x86<__vector_type_t<double, 8>>(__v)));
+	// else use fallback (going via double would round twice)
       }
     else if constexpr (__u64_to_f32) //{{{2
       {
@@ -679,15 +677,7 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepu64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepu64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  {
-	    return __intrin_bitcast<_To>(
-	      __lo256(_mm512_cvtepu32_ps(__auto_bitcast(
-		_mm512_cvtepi64_epi32(_mm512_srai_epi64(__intrin, 32)))))
-		* 0x100000000LL
-	      + __lo256(_mm512_cvtepu32_ps(
-		__auto_bitcast(_mm512_cvtepi64_epi32(__intrin)))));
-	  }
+	// else use fallback (adding converted halves would round twice)
       }
     else if constexpr (__s32_to_f32) //{{{2
       {
@@ -1268,25 +1258,6 @@ template <typename _To, typename _V, typename _Traits>
 	  {
 	    if constexpr (__x_to_x)
 	      return __make_wrapper<float>(__v0[0], __v0[1], __v1[0], __v1[1]);
-	    else if constexpr (__y_to_y)
-	      {
-		static_assert(__y_to_y && __have_avx2);
-		const auto __a = _mm256_unpacklo_epi32(__i0, __i1); // aeAE cgCG
-		const auto __b = _mm256_unpackhi_epi32(__i0, __i1); // bfBF dhDH
-		const auto __lo32
-		  = _mm256_unpacklo_epi32(__a, __b); // abef cdgh
-		const auto __hi32 = __vector_bitcast<
-		  conditional_t<is_signed_v<_Tp>, int, _UInt>>(
-		  _mm256_unpackhi_epi32(__a, __b)); // ABEF CDGH
-		const auto __hi
-		  = 0x100000000LL
-		    * __convert_x86<__vector_type_t<float, 8>>(__hi32);
-		const auto __mid
-		  = 0x10000 * _mm256_cvtepi32_ps(_mm256_srli_epi32(__lo32, 16));
-		const auto __lo
-		  = _mm256_cvtepi32_ps(_mm256_set1_epi32(0x0000ffffu) & __lo32);
-		return __xzyw((__hi + __mid) + __lo);
-	      }
 	    else if constexpr (__z_to_z && __have_avx512dq)
 	      {
 		return is_signed_v<_Tp> ? __concat(_mm512_cvtepi64_ps(__i0),
@@ -1294,33 +1265,8 @@ template <typename _To, typename _V, typename _Traits>
 					: __concat(_mm512_cvtepu64_ps(__i0),
 						   _mm512_cvtepu64_ps(__i1));
 	      }
-	    else if constexpr (__z_to_z && is_signed_v<_Tp>)
-	      {
-		const __m512 __hi32 = _mm512_cvtepi32_ps(
-		  __concat(_mm512_cvtepi64_epi32(__to_intrin(__v0 >> 32)),
-			   _mm512_cvtepi64_epi32(__to_intrin(__v1 >> 32))));
-		const __m512i __lo32 = __concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1));
-		// split low 32-bits, because if __hi32 is a small negative
-		// number, the 24-bit mantissa may lose important information if
-		// any of the high 8 bits of __lo32 is set, leading to
-		// catastrophic cancelation in the FMA
-		const __m512 __hi16
-		  = _mm512_cvtepu32_ps(_mm512_set1_epi32(0xffff0000u) & __lo32);
-		const __m512 __lo16
-		  = _mm512_cvtepi32_ps(_mm512_set1_epi32(0x0000ffffu) & __lo32);
-		return (__hi32 * 0x100000000LL + __hi16) + __lo16;
-	      }
-	    else if constexpr (__z_to_z && is_unsigned_v<_Tp>)
-	      {
-		return __intrin_bitcast<_To>(
-		  _mm512_cvtepu32_ps(__concat(
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i0, 32)),
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i1, 32))))
-		    * 0x100000000LL
-		  + _mm512_cvtepu32_ps(__concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1))));
-	      }
+	    // else use concat fallback (adding converted parts would round
+	    // more than once)
 	  }
 	else if constexpr (__f64_to_s32) //{{{2
 	  {
-- 
2.43.0


From 978a52cb7d3b9178d25032bc43973a07cdfade93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 10/41] fix: masked hmin and hmax must consider infinities

---
 experimental/bits/simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 36b9c0a..897df4c 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3538,7 +3538,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_max_v<_Tp>;
 #else
       __value_or<__infinity, _Tp>(__finite_max_v<_Tp>);
@@ -3556,7 +3556,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_min_v<_Tp>;
 #else
       [] {
-- 
2.43.0


From acaa488f848b9226a5aba246ecafad0886fd0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 11/41] fix: padding of constant divisors must be 1 (AVX-512
 bitmask ABIs)

---
 experimental/bits/simd_builtin.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index d41f7f3..d66691e 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1188,13 +1188,14 @@ template <int _UsedBytes>
 	  return __x;
 	else
 	  {
+	    // don't use _S_blend: it zeros the padding of constants
 	    constexpr size_t _Np = _S_size<_Tp>;
-	    return __make_dependent_t<_TV, _CommonImpl>::_S_blend(
-		     _S_implicit_mask<_Tp>(),
-		     _SimdWrapper<_Tp, _Np>(
-		       __vector_broadcast<_S_full_size<_Tp>>(_Tp(1))),
-		     _SimdWrapper<_Tp, _Np>(__x))
-	      ._M_data;
+	    using _Ip = __int_for_sizeof_t<_Tp>;
+	    constexpr auto __used = __generate_vector<_Ip, _S_full_size<_Tp>>(
+	      [](auto __i) -> _Ip { return __i < _Np ? -1 : 0; });
+	    constexpr auto __one = __generate_vector<_Tp, _S_full_size<_Tp>>(
+	      [](auto __i) -> _Tp { return __i < _Np ? 0 : 1; });
+	    return __or(__and(__x, __vector_bitcast<_Tp>(__used)), __one);
 	  }
       }
 
-- 
2.43.0


From 79d65fabf8525a843e176e19f3a69c81acd86619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 12/41] fix: 8/16-bit signed vector arithmetic must wrap around

---
 experimental/bits/simd_builtin.h | 39 +++++++++++++++++++++++++++-----
 experimental/bits/simd_x86.h     | 28 +++++++++++------------
 2 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index d66691e..785d20b 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1624,6 +1624,27 @@ template <typename _Abi>
       _S_complement(_SimdWrapper<_Tp, _Np> __x) noexcept
       { return ~__x._M_data; }
 
+    // _S_wrap_around / _S_unwrap {{{2
+    // Scalar operators promote integers smaller than int, i.e. the result wraps
+    // around on conversion back to _Tp. An overflow in a vector operator on
+    // signed elements is undefined behavior, so use unsigned elements.
+    template <typename _Tp, size_t _Np>
+      _GLIBCXX_SIMD_INTRINSIC static constexpr auto
+      _S_wrap_around(_SimdWrapper<_Tp, _Np> __x) noexcept
+      {
+	if constexpr (is_integral_v<_Tp> && is_signed_v<_Tp>
+		      && sizeof(_Tp) < sizeof(int))
+	  return __intrin_bitcast<__vector_type_t<make_unsigned_t<_Tp>, _Np>>(
+	    __x._M_data);
+	else
+	  return __x._M_data;
+      }
+
+    template <typename _Tp, size_t _Np, typename _TV>
+      _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
+      _S_unwrap(_TV __x) noexcept
+      { return __intrin_bitcast<__vector_type_t<_Tp, _Np>>(__x); }
+
     // _S_unary_minus {{{2
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
@@ -1631,24 +1652,30 @@ template <typename _Abi>
       {
 	// GCC doesn't use the psign instructions, but pxor & psub seem to be
 	// just as good a choice as pcmpeqd & psign. So meh.
-	return -__x._M_data;
+	return _S_unwrap<_Tp, _Np>(-_S_wrap_around(__x));
       }
 
     // arithmetic operators {{{2
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
       _S_plus(_SimdWrapper<_Tp, _Np> __x, _SimdWrapper<_Tp, _Np> __y)
-      { return __x._M_data + __y._M_data; }
+      {
+	return _S_unwrap<_Tp, _Np>(_S_wrap_around(__x) + _S_wrap_around(__y));
+      }
 
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
       _S_minus(_SimdWrapper<_Tp, _Np> __x, _SimdWrapper<_Tp, _Np> __y)
-      { return __x._M_data - __y._M_data; }
+      {
+	return _S_unwrap<_Tp, _Np>(_S_wrap_around(__x) - _S_wrap_around(__y));
+      }
 
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
       _S_multiplies(_SimdWrapper<_Tp, _Np> __x, _SimdWrapper<_Tp, _Np> __y)
-      { return __x._M_data * __y._M_data; }
+      {
+	return _S_unwrap<_Tp, _Np>(_S_wrap_around(__x) * _S_wrap_around(__y));
+      }
 
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
@@ -2425,12 +2452,12 @@ template <typename _Abi>
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static void
       _S_increment(_SimdWrapper<_Tp, _Np>& __x)
-      { __x = __x._M_data + 1; }
+      { __x = _S_unwrap<_Tp, _Np>(_S_wrap_around(__x) + 1); }
 
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static void
       _S_decrement(_SimdWrapper<_Tp, _Np>& __x)
-      { __x = __x._M_data - 1; }
+      { __x = _S_unwrap<_Tp, _Np>(_S_wrap_around(__x) - 1); }
 
     // smart_reference access {{{2
     template <typename _Tp, size_t _Np, typename _Up>
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index a98628f..7600927 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1307,7 +1307,7 @@ template <typename _Abi>
 	using _Tp = typename _VVT::value_type;
 	if (__builtin_is_constant_evaluated() || __x._M_is_constprop()
 	    || __y._M_is_constprop())
-	  return __as_vector(__x) * __as_vector(__y);
+	  return _Base::_S_multiplies(__x, __y);
 	else if constexpr (sizeof(_Tp) == 1)
 	  {
 	    if constexpr (sizeof(_V) == 2)
@@ -1319,8 +1319,8 @@ template <typename _Abi>
 	      }
 	    else if constexpr (sizeof(_V) == 4 && _VVT::_S_partial_width == 3)
 	      {
-		const auto __xi = reinterpret_cast<int>(__x._M_data);
-		const auto __yi = reinterpret_cast<int>(__y._M_data);
+		const auto __xi = reinterpret_cast<unsigned>(__x._M_data);
+		const auto __yi = reinterpret_cast<unsigned>(__y._M_data);
 		return reinterpret_cast<__vector_type_t<_Tp, 3>>(
 		  ((__xi * __yi) & 0xff)
 		  | (((__xi >> 8) * (__yi & 0xff00)) & 0xff00)
@@ -1328,8 +1328,8 @@ template <typename _Abi>
 	      }
 	    else if constexpr (sizeof(_V) == 4)
 	      {
-		const auto __xi = reinterpret_cast<int>(__x._M_data);
-		const auto __yi = reinterpret_cast<int>(__y._M_data);
+		const auto __xi = reinterpret_cast<unsigned>(__x._M_data);
+		const auto __yi = reinterpret_cast<unsigned>(__y._M_data);
 		return reinterpret_cast<__vector_type_t<_Tp, 4>>(
 		  ((__xi * __yi) & 0xff)
 		  | (((__xi >> 8) * (__yi & 0xff00)) & 0xff00)
@@ -1339,26 +1339,26 @@ template <typename _Abi>
 	    else if constexpr (sizeof(_V) == 8 && __have_avx2
 			       && is_signed_v<_Tp>)
 	      return __convert<typename _VVT::type>(
-		__vector_bitcast<short>(_mm_cvtepi8_epi16(__to_intrin(__x)))
-		* __vector_bitcast<short>(_mm_cvtepi8_epi16(__to_intrin(__y))));
+		__vector_bitcast<unsigned short>(_mm_cvtepi8_epi16(__to_intrin(__x)))
+		* __vector_bitcast<unsigned short>(_mm_cvtepi8_epi16(__to_intrin(__y))));
 	    else if constexpr (sizeof(_V) == 8 && __have_avx2
 			       && is_unsigned_v<_Tp>)
 	      return __convert<typename _VVT::type>(
-		__vector_bitcast<short>(_mm_cvtepu8_epi16(__to_intrin(__x)))
-		* __vector_bitcast<short>(_mm_cvtepu8_epi16(__to_intrin(__y))));
+		__vector_bitcast<unsigned short>(_mm_cvtepu8_epi16(__to_intrin(__x)))
+		* __vector_bitcast<unsigned short>(_mm_cvtepu8_epi16(__to_intrin(__y))));
 	    else
 	      {
 		// codegen of `x*y` is suboptimal (as of GCC 9.0.1)
 		constexpr size_t __full_size = _VVT::_S_full_size;
 		constexpr int _Np = sizeof(_V) >= 16 ? __full_size / 2 : 8;
-		using _ShortW = _SimdWrapper<short, _Np>;
-		const _ShortW __even = __vector_bitcast<short, _Np>(__x)
-				       * __vector_bitcast<short, _Np>(__y);
+		using _ShortW = _SimdWrapper<unsigned short, _Np>;
+		const _ShortW __even = __vector_bitcast<unsigned short, _Np>(__x)
+				       * __vector_bitcast<unsigned short, _Np>(__y);
 		_ShortW __high_byte = _ShortW()._M_data - 256;
 		//[&]() { asm("" : "+x"(__high_byte._M_data)); }();
 		const _ShortW __odd
-		  = (__vector_bitcast<short, _Np>(__x) >> 8)
-		    * (__vector_bitcast<short, _Np>(__y) & __high_byte._M_data);
+		  = (__vector_bitcast<unsigned short, _Np>(__x) >> 8)
+		    * (__vector_bitcast<unsigned short, _Np>(__y) & __high_byte._M_data);
 		if constexpr (__have_avx512bw && sizeof(_V) > 2)
 		  return _CommonImplX86::_S_blend_avx512(
 		    0xaaaa'aaaa'aaaa'aaaaLL, __vector_bitcast<_Tp>(__even),
-- 
2.43.0


From 8d83690cf14c126658bd05ae80aa2cd96913b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 13/41] fix: minmax for scalar and fixed_size ABIs

---
 experimental/bits/simd_fixed_size.h | 9 ++++++++-
 experimental/bits/simd_scalar.h     | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 9988313..c627598 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1482,7 +1482,7 @@ template <int _Np>
 	  }
       }
 
-    // _S_min, _S_max {{{2
+    // _S_min, _S_max, _S_minmax {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
       _S_min(const _SimdTuple<_Tp, _As...>& __a,
@@ -1507,6 +1507,13 @@ template <int _Np>
 	  __b);
       }
 
+    template <typename _Tp, typename... _As>
+      static inline constexpr pair<_SimdTuple<_Tp, _As...>,
+				   _SimdTuple<_Tp, _As...>>
+      _S_minmax(const _SimdTuple<_Tp, _As...>& __a,
+		const _SimdTuple<_Tp, _As...>& __b)
+      { return {_S_min(__a, __b), _S_max(__b, __a)}; }
+
     // _S_complement {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
diff --git a/experimental/bits/simd_scalar.h b/experimental/bits/simd_scalar.h
index 4d4fe73..74c1463 100644
--- a/experimental/bits/simd_scalar.h
+++ b/experimental/bits/simd_scalar.h
@@ -188,7 +188,7 @@ struct _SimdImplScalar
     _S_reduce(const simd<_Tp, simd_abi::scalar>& __x, const _BinaryOperation&)
     { return __x._M_data; }
 
-  // _S_min, _S_max {{{2
+  // _S_min, _S_max, _S_minmax {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_min(const _Tp __a, const _Tp __b)
     { return std::min(__a, __b); }
@@ -197,6 +197,11 @@ struct _SimdImplScalar
     static constexpr inline _Tp _S_max(const _Tp __a, const _Tp __b)
     { return std::max(__a, __b); }
 
+  template <typename _Tp>
+    static constexpr inline pair<_Tp, _Tp>
+    _S_minmax(const _Tp __a, const _Tp __b)
+    { return std::minmax(__a, __b); }
+
   // _S_complement {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_complement(_Tp __x) noexcept
-- 
2.43.0


From 187db26f1fad422ce162fe8ac72ea0560616eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 14/41] fix: round, trunc, floor, ceil, nearbyint, rint must
 keep the sign of zero

---
 experimental/bits/simd_builtin.h |  7 +++++--
 experimental/bits/simd_x86.h     | 14 +++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 785d20b..bbc29e5 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2196,8 +2196,11 @@ template <typename _Abi>
       static_assert(__CHAR_BIT__ * sizeof(1ull) >= __digits_v<value_type>);
       _GLIBCXX_SIMD_USE_CONSTEXPR _V __shifter_abs
 	= _V() + (1ull << (__digits_v<value_type> - 1));
-      const _V __shifter = __or(__and(_S_signmask<_V>, __x), __shifter_abs);
-      const _V __shifted = _S_plus_minus(__x, __shifter);
+      const _V __sign = __and(_S_signmask<_V>, __x);
+      const _V __shifter = __or(__sign, __shifter_abs);
+      // the subtraction loses the sign of zero
+      const _V __shifted
+	= __or(__sign, __and(_S_absmask<_V>, _S_plus_minus(__x, __shifter)));
       return __absx < __shifter_abs ? __shifted : __x;
     }
 
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 7600927..d99ef00 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2673,8 +2673,10 @@ template <typename _Abi>
 	  return _mm_round_pd(__x, 0x3);
 	else if constexpr (__is_sse_ps<_Tp, _Np>())
 	  {
-	    auto __truncated
-	      = _mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x)));
+	    // the conversion to int loses the sign of zero
+	    auto __truncated = _mm_or_ps(
+	      _mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x))),
+	      _mm_and_ps(_mm_set1_ps(-0.f), __to_intrin(__x)));
 	    const auto __no_fractional_values
 	      = __vector_bitcast<int>(__vector_bitcast<_UInt>(__to_intrin(__x))
 				      & 0x7f800000u)
@@ -2724,11 +2726,13 @@ template <typename _Abi>
 	// x < 0 => truncated <= 0 && truncated >= x => x - truncated <= 0
 	// x > 0 => truncated >= 0 && truncated <= x => x - truncated >= 0
 
-	const _V __rounded
-	  = __truncated
+	// (the sign bit is ORed in because 0 and -0 must be told apart)
+	const _V __rounded = __or(
+	  __and(_S_signmask<_V>, __x._M_data),
+	  __truncated
 	    + (__and(_S_absmask<_V>, __x._M_data - __truncated) >= _Tp(.5)
 		 ? __or(__and(_S_signmask<_V>, __x._M_data), _V() + 1)
-		 : _V());
+		 : _V()));
 	if constexpr (__have_sse4_1)
 	  return __rounded;
 	else // adjust for missing range in cvttps_epi32
-- 
2.43.0


From ae198c691851b0fa8fe57372e8bc4245cc1b624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 15/41] fix: sin and cos of huge arguments

---
 experimental/bits/simd_math.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 6316523..a185af5 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -470,9 +470,15 @@ template <typename _Tp, typename _Abi>
     else
       {
 	if constexpr (is_same_v<_Tp, float>)
-	  if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= 393382)))
-	    return static_simd_cast<_V>(
-	      cos(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
+	  {
+	    if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= 393382)))
+	      return static_simd_cast<_V>(
+		cos(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
+	  }
+	else if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= 0x1p30)))
+	  // the quadrant is not representable as int and the argument reduction
+	  // is not precise enough
+	  return _V([&](auto __i) { return std::cos(__x[__i]); });
 
 	const auto __f = __fold_input(__x);
 	// quadrant | effect
@@ -516,9 +522,15 @@ template <typename _Tp, typename _Abi>
     else
       {
 	if constexpr (is_same_v<_Tp, float>)
-	  if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= 527449)))
-	    return static_simd_cast<_V>(
-	      sin(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
+	  {
+	    if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= 527449)))
+	      return static_simd_cast<_V>(
+		sin(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
+	  }
+	else if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= 0x1p30)))
+	  // the quadrant is not representable as int and the argument reduction
+	  // is not precise enough
+	  return _V([&](auto __i) { return std::sin(__x[__i]); });
 
 	const auto __f = __fold_input(__x);
 	// quadrant | effect
-- 
2.43.0


From 098079b32d1088fef6e27bf97efbde73f58c3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 16/41] fix: special math functions could not be instantiated

---
 experimental/bits/simd_math.h | 60 +++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index a185af5..31dd835 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1409,6 +1409,37 @@ simd_div_t<__llongv<_Abi>> div(__llongv<_Abi> numer,
 */
 
 // special math {{{
+// There are no vectorized implementations of the special functions. Evaluate
+// them for the elements (and not for padding) because they may throw.
+#define _GLIBCXX_SIMD_SPECIAL_MATH_CALL_(__name)                               \
+template <typename _Tp, typename _Abi>                                         \
+  enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>                       \
+  __name(const simd<_Tp, _Abi>& __x)                                           \
+  {                                                                            \
+    return simd<_Tp, _Abi>([&](auto __i) { return std::__name(__x[__i]); });   \
+  }
+
+#define _GLIBCXX_SIMD_SPECIAL_MATH_CALL2_(__name)                              \
+template <typename _Tp, typename _Abi>                                         \
+  enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>                       \
+  __name(const simd<_Tp, _Abi>& __x, const simd<_Tp, _Abi>& __y)               \
+  {                                                                            \
+    return simd<_Tp, _Abi>(                                                    \
+      [&](auto __i) { return std::__name(__x[__i], __y[__i]); });              \
+  }                                                                            \
+_GLIBCXX_SIMD_CVTING2(__name)
+
+#define _GLIBCXX_SIMD_SPECIAL_MATH_CALL3_(__name)                              \
+template <typename _Tp, typename _Abi>                                         \
+  enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>                       \
+  __name(const simd<_Tp, _Abi>& __x, const simd<_Tp, _Abi>& __y,               \
+	 const simd<_Tp, _Abi>& __z)                                           \
+  {                                                                            \
+    return simd<_Tp, _Abi>(                                                    \
+      [&](auto __i) { return std::__name(__x[__i], __y[__i], __z[__i]); });    \
+  }                                                                            \
+_GLIBCXX_SIMD_CVTING3(__name)
+
 template <typename _Tp, typename _Abi>
   enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>
   assoc_laguerre(const fixed_size_simd<unsigned, simd_size_v<_Tp, _Abi>>& __n,
@@ -1431,18 +1462,18 @@ template <typename _Tp, typename _Abi>
     });
   }
 
-_GLIBCXX_SIMD_MATH_CALL2_(beta, _Tp)
-_GLIBCXX_SIMD_MATH_CALL_(comp_ellint_1)
-_GLIBCXX_SIMD_MATH_CALL_(comp_ellint_2)
-_GLIBCXX_SIMD_MATH_CALL2_(comp_ellint_3, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(cyl_bessel_i, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(cyl_bessel_j, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(cyl_bessel_k, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(cyl_neumann, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(ellint_1, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(ellint_2, _Tp)
-_GLIBCXX_SIMD_MATH_CALL3_(ellint_3, _Tp, _Tp)
-_GLIBCXX_SIMD_MATH_CALL_(expint)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL2_(beta)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL_(comp_ellint_1)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL_(comp_ellint_2)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL2_(comp_ellint_3)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL2_(cyl_bessel_i)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL2_(cyl_bessel_j)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL2_(cyl_bessel_k)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL2_(cyl_neumann)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL2_(ellint_1)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL2_(ellint_2)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL3_(ellint_3)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL_(expint)
 
 template <typename _Tp, typename _Abi>
   enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>
@@ -1471,7 +1502,7 @@ template <typename _Tp, typename _Abi>
       [&](auto __i) { return std::legendre(__n[__i], __x[__i]); });
   }
 
-_GLIBCXX_SIMD_MATH_CALL_(riemann_zeta)
+_GLIBCXX_SIMD_SPECIAL_MATH_CALL_(riemann_zeta)
 
 template <typename _Tp, typename _Abi>
   enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>
@@ -1506,6 +1537,9 @@ template <typename _Tp, typename _Abi>
 #undef _GLIBCXX_SIMD_MATH_CALL_
 #undef _GLIBCXX_SIMD_MATH_CALL2_
 #undef _GLIBCXX_SIMD_MATH_CALL3_
+#undef _GLIBCXX_SIMD_SPECIAL_MATH_CALL_
+#undef _GLIBCXX_SIMD_SPECIAL_MATH_CALL2_
+#undef _GLIBCXX_SIMD_SPECIAL_MATH_CALL3_
 
 _GLIBCXX_SIMD_END_NAMESPACE
 
-- 
2.43.0


From c51cbdfcb05c1974a28021c3b1c238e595f99bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:35 +0000
Subject: [PATCH 17/41] fix: sph_legendre called std::assoc_legendre

---
 experimental/bits/simd_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 31dd835..197f063 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1520,7 +1520,7 @@ template <typename _Tp, typename _Abi>
 	       const simd<_Tp, _Abi>& theta)
   {
     return simd<_Tp, _Abi>([&](auto __i) {
-      return std::assoc_legendre(__l[__i], __m[__i], theta[__i]);
+      return std::sph_legendre(__l[__i], __m[__i], theta[__i]);
     });
   }
 
-- 
2.43.0


From b1a29195834aacfa6c70d4280c9c5b3c4d35dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 18/41] fix: __digits of bool counts value bits

---
 experimental/bits/numeric_traits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/experimental/bits/numeric_traits.h b/experimental/bits/numeric_traits.h
index 1b60874..b4c260e 100644
--- a/experimental/bits/numeric_traits.h
+++ b/experimental/bits/numeric_traits.h
@@ -43,6 +43,10 @@ template <typename _Tp>
       = sizeof(_Tp) * __CHAR_BIT__ - is_signed_v<_Tp>;
   };
 
+template <>
+  struct __digits_impl<bool, true>
+  { static inline constexpr int value = 1; };
+
 template <>
   struct __digits_impl<float, true>
   { static inline constexpr int value = __FLT_MANT_DIG__; };
-- 
2.43.0


From fb13f2d1b153b90fa4d2c643efc0299ec5e3f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 19/41] fix: keep simd_mask trivially default constructible

Reverts f928206: initializing the bits of a fixed_size mask made
is_trivially_default_constructible<simd_mask> false, which tests/sfinae.cpp
requires.
---
 experimental/bits/simd.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 897df4c..924d398 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -988,9 +988,7 @@ template <size_t _Np, bool _Sanitized>
 
     static constexpr int _S_array_size = __div_roundup(_NBytes, sizeof(_Tp));
 
-    // Must be initialized, because a sanitized mask guarantees that the unused
-    // bits are zero and setting elements never touches these.
-    _Tp _M_bits[_S_array_size] = {};
+    _Tp _M_bits[_S_array_size];
 
     static constexpr int _S_unused_bits
       = _Np == 1 ? 0 : _S_array_size * sizeof(_Tp) * __CHAR_BIT__ - _Np;
-- 
2.43.0


From eae9e05a3b034bc06b5c15758f99a1616fe3b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 20/41] fix: cv-qualified types are not vectorizable

---
 experimental/bits/simd.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 924d398..e75ad55 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -338,6 +338,16 @@ template <typename _Tp>
 template <>
   struct __is_vectorizable<bool> : public false_type {};
 
+// only cv-unqualified arithmetic types are vectorizable types
+template <typename _Tp>
+  struct __is_vectorizable<const _Tp> : public false_type {};
+
+template <typename _Tp>
+  struct __is_vectorizable<volatile _Tp> : public false_type {};
+
+template <typename _Tp>
+  struct __is_vectorizable<const volatile _Tp> : public false_type {};
+
 template <typename _Tp>
   inline constexpr bool __is_vectorizable_v = __is_vectorizable<_Tp>::value;
 
-- 
2.43.0


From 1a967a92d2991858f7d7c456817ae3a2c47a3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 21/41] fix: native_simd of char and short with AVX512VL but
 without AVX512BW

---
 experimental/bits/simd.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index e75ad55..6d2cdaf 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2665,7 +2665,9 @@ template <typename _Tp>
     constexpr size_t __bytes = __vectorized_sizeof<_Tp>();
     if constexpr (__bytes == sizeof(_Tp))
       return static_cast<scalar*>(nullptr);
-    else if constexpr (__have_avx512vl || (__have_avx512f && __bytes == 64))
+    else if constexpr ((__have_avx512vl
+			&& (__have_avx512bw || sizeof(_Tp) >= 4))
+		       || (__have_avx512f && __bytes == 64))
       return static_cast<_VecBltnBtmsk<__bytes>*>(nullptr);
     else
       return static_cast<_VecBuiltin<__bytes>*>(nullptr);
-- 
2.43.0


From 43a12868004c8530c59471c0bc6b194eb5690147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 22/41] fix: return the result of popcount for 32-byte masks
 without POPCNT

---
 experimental/bits/simd_x86.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d99ef00..f151a5e 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5135,7 +5135,7 @@ template <typename _Abi>
 		// use a summation
 		using _I = __int_for_sizeof_t<_Tp>;
 		const auto __as_int = __vector_bitcast<_I>(__kk);
-		_MaskImplX86<simd_abi::__sse>::_S_popcount(
+		return _MaskImplX86<simd_abi::__sse>::_S_popcount(
 		  simd_mask<_I, simd_abi::__sse>(__private_init,
 						 __lo128(__as_int)
 						   + __hi128(__as_int)));
-- 
2.43.0


From e02cde69a3072a065d44e09da7db0be634e970f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 23/41] fix: keep the sign of a literal negative zero in masked
 assignment

---
 experimental/bits/simd_builtin.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index bbc29e5..a6dcb69 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2491,7 +2491,13 @@ template <typename _Abi>
 	  return;
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __vector_broadcast<_Np>(__rhs);
-	else if (__builtin_constant_p(__rhs) && __rhs == 0)
+	else if (__builtin_constant_p(__rhs) && __rhs == 0 && [&]() {
+		   // -0. compares equal to 0 but has a bit set
+		   if constexpr (is_floating_point_v<_Tp>)
+		     return !__builtin_signbit(__rhs);
+		   else
+		     return true;
+		 }())
 	  {
 	    if constexpr (!is_same_v<bool, _K>)
 	      // the __andnot optimization only makes sense if __k._M_data is a
-- 
2.43.0


From 85a45b066e7a6ce4a7cb978c1208fb835e23b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 24/41] fix: reject simd_cast to a type that is not arithmetic
 without a hard error

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 6d2cdaf..6e20a20 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -746,7 +746,7 @@ inline constexpr struct _BitsetInit {} __bitset_init = {};
 // __is_narrowing_conversion<_From, _To>{{{
 template <typename _From, typename _To, bool = is_arithmetic_v<_From>,
 	  bool = is_arithmetic_v<_To>>
-  struct __is_narrowing_conversion;
+  struct __is_narrowing_conversion : true_type {};
 
 // ignore "signed/unsigned mismatch" in the following trait.
 // The implicit conversions will do the right thing here.
-- 
2.43.0


From 2fd1713c76ab85bf382417fd9dd5d3b53a1fc0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 25/41] fix: mask casts to a different number of elements are
 rejected without a hard error

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 6e20a20..c9651dd 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2838,7 +2838,7 @@ template <typename _Tp, size_t _Np>
 // static_simd_cast {{{2
 template <typename _Tp, typename _Up, typename _Ap, bool = is_simd_v<_Tp>,
 	  typename = void>
-  struct __static_simd_cast_return_type;
+  struct __static_simd_cast_return_type {};
 
 template <typename _Tp, typename _A0, typename _Up, typename _Ap>
   struct __static_simd_cast_return_type<simd_mask<_Tp, _A0>, _Up, _Ap, false,
-- 
2.43.0


From 199174af998e1bdc082142123de2532170bddb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 26/41] fix: constrain the load constructor on vectorizable
 types

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index c9651dd..fa456d8 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -5001,7 +5001,7 @@ template <typename _Tp, typename _Abi>
     // load constructor
     template <typename _Up, typename _Flags>
       _GLIBCXX_SIMD_ALWAYS_INLINE
-      simd(const _Up* __mem, _Flags)
+      simd(const _Vectorizable<_Up>* __mem, _Flags)
       : _M_data(
 	  _Impl::_S_load(_Flags::template _S_apply<simd>(__mem), _S_type_tag))
       {}
-- 
2.43.0


From 018df8bdd4935dd6a8823493d4ba8693e07ff0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 27/41] fix: accept generators that return a reference

---
 experimental/bits/simd.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index fa456d8..451eb7c 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -4993,9 +4993,10 @@ template <typename _Tp, typename _Abi>
     // generator constructor
     template <typename _Fp>
       _GLIBCXX_SIMD_ALWAYS_INLINE explicit _GLIBCXX_SIMD_CONSTEXPR
-      simd(_Fp&& __gen, _ValuePreservingOrInt<decltype(declval<_Fp>()(
-						declval<_SizeConstant<0>&>())),
-					      value_type>* = nullptr)
+      simd(_Fp&& __gen,
+	   _ValuePreservingOrInt<__remove_cvref_t<decltype(declval<_Fp>()(
+				   declval<_SizeConstant<0>&>()))>,
+				 value_type>* = nullptr)
       : _M_data(_Impl::_S_generator(static_cast<_Fp&&>(__gen), _S_type_tag)) {}
 
     // load constructor
-- 
2.43.0


From 295ae82165bc5406f45e78c8ca16651097bcae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 28/41] fix: mask reductions and where take exactly bool

---
 experimental/bits/simd.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 451eb7c..2074363 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -669,9 +669,9 @@ class _ExactBool
   const bool _M_data;
 
 public:
-  _GLIBCXX_SIMD_INTRINSIC constexpr _ExactBool(bool __b) : _M_data(__b) {}
-
-  _ExactBool(int) = delete;
+  // no conversions to bool, e.g. from integers or pointers
+  template <typename _Tp, typename = enable_if_t<is_same_v<_Tp, bool>>>
+    _GLIBCXX_SIMD_INTRINSIC constexpr _ExactBool(_Tp __b) : _M_data(__b) {}
 
   _GLIBCXX_SIMD_INTRINSIC constexpr operator bool() const { return _M_data; }
 };
-- 
2.43.0


From e9b559cb1965ae331d7ce81ef8f6af9b61ab9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 29/41] fix: NEON mask reductions ignore padding elements

---
 experimental/bits/simd_neon.h | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_neon.h b/experimental/bits/simd_neon.h
index 597f406..bbe09f0 100644
--- a/experimental/bits/simd_neon.h
+++ b/experimental/bits/simd_neon.h
@@ -424,9 +424,7 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static bool _S_any_of(simd_mask<_Tp, _Abi> __k)
       {
-	const auto __kk
-	  = __vector_bitcast<char>(__k._M_data)
-	    | ~__vector_bitcast<char>(_Abi::template _S_implicit_mask<_Tp>());
+	const auto __kk = _Abi::_S_masked(__k._M_data);
 	if constexpr (sizeof(__k) == 16)
 	  {
 	    const auto __x = __vector_bitcast<long long>(__kk);
@@ -462,11 +460,12 @@ template <typename _Abi>
       {
 	if constexpr (sizeof(__k) <= 8)
 	  {
-	    const auto __kk = __vector_bitcast<char>(__k._M_data)
-			      | ~__vector_bitcast<char>(
-				_Abi::template _S_implicit_mask<_Tp>());
-	    using _Up = make_unsigned_t<__int_for_sizeof_t<decltype(__kk)>>;
-	    return __bit_cast<_Up>(__kk) + 1 > 1;
+	    const auto __kk = _Abi::_S_masked(__k._M_data);
+	    using _Up = __int_for_sizeof_t<decltype(__kk)>;
+	    return __bit_cast<_Up>(__kk) != 0
+		   && __bit_cast<_Up>(__kk)
+			!= __bit_cast<_Up>(
+			  _Abi::template _S_implicit_mask<_Tp>()._M_data);
 	  }
 	else
 	  return _Base::_S_some_of(__k);
@@ -477,29 +476,32 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static int _S_popcount(simd_mask<_Tp, _Abi> __k)
       {
-	if constexpr (sizeof(_Tp) == 1)
+	const auto __kk = _Abi::_S_masked(__k._M_data);
+	if constexpr (sizeof(__kk) < 8)
+	  return _Base::_S_popcount(__k);
+	else if constexpr (sizeof(_Tp) == 1)
 	  {
-	    const auto __s8 = __vector_bitcast<_SChar>(__k._M_data);
+	    const auto __s8 = __vector_bitcast<_SChar>(__kk);
 	    int8x8_t __tmp = __lo64(__s8) + __hi64z(__s8);
 	    return -vpadd_s8(vpadd_s8(vpadd_s8(__tmp, int8x8_t()), int8x8_t()),
 			     int8x8_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 2)
 	  {
-	    const auto __s16 = __vector_bitcast<short>(__k._M_data);
+	    const auto __s16 = __vector_bitcast<short>(__kk);
 	    int16x4_t __tmp = __lo64(__s16) + __hi64z(__s16);
 	    return -vpadd_s16(vpadd_s16(__tmp, int16x4_t()), int16x4_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 4)
 	  {
-	    const auto __s32 = __vector_bitcast<int>(__k._M_data);
+	    const auto __s32 = __vector_bitcast<int>(__kk);
 	    int32x2_t __tmp = __lo64(__s32) + __hi64z(__s32);
 	    return -vpadd_s32(__tmp, int32x2_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 8)
 	  {
 	    static_assert(sizeof(__k) == 16);
-	    const auto __s64 = __vector_bitcast<long>(__k._M_data);
+	    const auto __s64 = __vector_bitcast<long>(__kk);
 	    return -(__s64[0] + __s64[1]);
 	  }
       }
-- 
2.43.0


From 3cd8aaacfc7227e634ed0554d81f94f27cc15a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 30/41] fix: PPC popcount ignores padding elements

---
 experimental/bits/simd_ppc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_ppc.h b/experimental/bits/simd_ppc.h
index 1d64993..4174417 100644
--- a/experimental/bits/simd_ppc.h
+++ b/experimental/bits/simd_ppc.h
@@ -126,7 +126,7 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static int _S_popcount(simd_mask<_Tp, _Abi> __k)
       {
-	const auto __kv = __as_vector(__k);
+	const auto __kv = __as_vector(_Abi::_S_masked(__k._M_data));
 	if constexpr (__have_power10vec)
 	  {
 	    return vec_cntm(__to_intrin(__kv), 1);
-- 
2.43.0


From 66e5b4c8378afaa8371179c1eefd5979b9c2c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 31/41] fix: converting loads and stores between integers and
 double on AArch32

---
 experimental/bits/simd.h         | 12 +++++++++---
 experimental/bits/simd_builtin.h |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 2074363..ca7e5fb 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2262,15 +2262,21 @@ template <>
   struct __intrinsic_type<float, 16, void>
   { using type = float32x4_t; };
 
-#if _GLIBCXX_SIMD_HAVE_NEON_A64
 template <>
   struct __intrinsic_type<double, 8, void>
-  { using type = float64x1_t; };
+  {
+#if _GLIBCXX_SIMD_HAVE_NEON_A64
+    using type = float64x1_t;
+#endif
+  };
 
 template <>
   struct __intrinsic_type<double, 16, void>
-  { using type = float64x2_t; };
+  {
+#if _GLIBCXX_SIMD_HAVE_NEON_A64
+    using type = float64x2_t;
 #endif
+  };
 
 #define _GLIBCXX_SIMD_ARM_INTRIN(_Bits, _Np)                                   \
 template <>                                                                    \
diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index a6dcb69..68d4c78 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1429,7 +1429,7 @@ template <typename _Abi>
 	    : (is_floating_point_v<_Up> && __have_avx) || __have_avx2 ? 32
 								      : 16;
 	constexpr size_t __bytes_to_load = sizeof(_Up) * _Np;
-	if constexpr (sizeof(_Up) > 8)
+	if constexpr (__vectorized_sizeof<_Up>() == sizeof(_Up))
 	  return __generate_vector<_Tp, _SimdMember<_Tp>::_S_full_size>([&](
 	    auto __i) constexpr {
 	    return static_cast<_Tp>(__i < _Np ? __mem[__i] : 0);
@@ -1497,7 +1497,7 @@ template <typename _Abi>
 	constexpr size_t _Np = _S_size<_Tp>;
 	constexpr size_t __max_store_size
 	  = _SuperImpl::template _S_max_store_size<_Up>;
-	if constexpr (sizeof(_Up) > 8)
+	if constexpr (__vectorized_sizeof<_Up>() == sizeof(_Up))
 	  __execute_n_times<_Np>([&](auto __i) constexpr {
 	    __mem[__i] = __v[__i];
 	  });
-- 
2.43.0


From c87fa32cd6ac3077eee708c967984644cda9d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 32/41] fix: 64-bit long double is not vectorizable on AArch32

---
 experimental/bits/simd.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index ca7e5fb..86ede9a 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2624,7 +2624,9 @@ template <typename _Tp>
 
 	// ARM:
 	if constexpr (__have_neon_a64
-		      || (__have_neon_a32 && !is_same_v<_Tp, double>) )
+		      || (__have_neon_a32
+			  && !(is_floating_point_v<_Tp>
+			       && sizeof(_Tp) == sizeof(double))) )
 	  return 16;
 	if constexpr (__have_neon
 		      && sizeof(_Tp) < 8
-- 
2.43.0


From 1a5a710521f5d2b035c8d8653994b07bcd8dcae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 33/41] fix: to_fixed_size initialises the mask it assigns to

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 86ede9a..3fa32f4 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3041,7 +3041,7 @@ template <typename _Tp, typename _Ap>
   to_fixed_size(const simd_mask<_Tp, _Ap>& __x)
   {
     constexpr int _Np = simd_mask<_Tp, _Ap>::size();
-    fixed_size_simd_mask<_Tp, _Np> __r;
+    fixed_size_simd_mask<_Tp, _Np> __r{};
     __execute_n_times<_Np>([&](auto __i) constexpr { __r[__i] = __x[__i]; });
     return __r;
   }
-- 
2.43.0


From 0eb88d72d5bc178e7651930c54e82833a18f45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 34/41] fix: masked assignment of bool to float masks on AVX

---
 experimental/bits/simd_builtin.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 68d4c78..7ffc742 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2898,16 +2898,10 @@ template <typename _Abi>
       _S_masked_assign(_SimdWrapper<_Tp, _Np> __k,
 		       _SimdWrapper<_Tp, _Np>& __lhs, bool __rhs)
       {
-	if (__builtin_constant_p(__rhs))
-	  {
-	    if (__rhs == false)
-	      __lhs = __andnot(__k, __lhs);
-	    else
-	      __lhs = __or(__k, __lhs);
-	    return;
-	  }
-	__lhs = _CommonImpl::_S_blend(__k, __lhs,
-				      __data(simd_mask<_Tp, _Abi>(__rhs)));
+	if (__rhs == false)
+	  __lhs = __andnot(__k, __lhs);
+	else
+	  __lhs = __or(__k, __lhs);
       }
 
     //}}}2
-- 
2.43.0


From 31567a3c9da5e82b7df6d42eb93a221e6cb671f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 35/41] fix: no ctz(0) in mask iteration

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 3fa32f4..5554ba8 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3431,7 +3431,7 @@ template <size_t _Np>
       size_t __bit;
 
       _GLIBCXX_SIMD_INTRINSIC void __next_bit()
-      { __bit = __builtin_ctzl(__mask); }
+      { __bit = std::__countr_zero(__mask); }
 
       _GLIBCXX_SIMD_INTRINSIC void __reset_lsb()
       {
-- 
2.43.0


From edc04e0f8523724d675b8d27d5ac22c3ef2b58ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:16 +0000
Subject: [PATCH 36/41] fix: constant vector shifts by 31 without AVX2

---
 experimental/bits/simd_x86.h | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index f151a5e..e57a756 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1757,16 +1757,18 @@ template <typename _Abi>
 		using _Float4 = __vector_type_t<float, 4>;
 		using _Int4 = __vector_type_t<int, 4>;
 		using _UInt4 = __vector_type_t<unsigned, 4>;
+		// multiply -x with -2^y: 2^31 cannot be converted to int
 		const _UInt4 __yu
-		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
-		return __x
-		       * __intrin_bitcast<_V>(
-			 (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			    reinterpret_cast<_Float4>(__yu << 23)))
-			  & 0xffff) // shifts > 15 must not affect the next element
-			 | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			      reinterpret_cast<_Float4>((__yu >> 16) << 23)))
-			    << 16));
+		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0xbf8 >> 3)));
+		return __intrin_bitcast<_V>(
+		  -__vector_bitcast<_UShort>(__ix)
+		  * __vector_bitcast<_UShort>(
+		    (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+		       reinterpret_cast<_Float4>(__yu << 23)))
+		     & 0xffff) // shifts > 15 must not affect the next element
+		    | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			 reinterpret_cast<_Float4>((__yu >> 16) << 23)))
+		       << 16)));
 	      }
 	    else
 	      __assert_unreachable<_Tp>();
@@ -1774,11 +1776,13 @@ template <typename _Abi>
 	else if constexpr (sizeof(_Up) == 4 && sizeof __ix == 16
 			   && !__have_avx2)
 	  // latency is suboptimal, but throughput is at full speedup
+	  // multiply -x with -2^y: 2^31 cannot be converted to int
 	  return __intrin_bitcast<_V>(
-	    __vector_bitcast<unsigned>(__ix)
-	    * __vector_convert<__vector_type16_t<int>>(
-	      _SimdWrapper<float, 4>(__vector_bitcast<float>(
-		(__vector_bitcast<unsigned, 4>(__y) << 23) + 0x3f80'0000))));
+	    -__vector_bitcast<unsigned>(__ix)
+	    * __vector_bitcast<unsigned>(
+	      __vector_convert<__vector_type16_t<int>>(
+		_SimdWrapper<float, 4>(__vector_bitcast<float>(
+		  (__vector_bitcast<unsigned, 4>(__y) << 23) + 0xbf80'0000)))));
 	else if constexpr (sizeof(_Up) == 8 && sizeof __ix == 16
 			   && !__have_avx2)
 	  {
-- 
2.43.0


From cb39b1d10d841dc17c2a36a263c798912fbb5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 37/41] fix: masked loads and stores ignore mask padding

---
 experimental/bits/simd_builtin.h | 4 ++--
 experimental/bits/simd_x86.h     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 7ffc742..97d215d 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1541,9 +1541,9 @@ template <typename _Abi>
     template <typename _TW, typename _TVT = _VectorTraits<_TW>,
 	      typename _Tp = typename _TVT::value_type, typename _Up>
       static inline void
-      _S_masked_store(const _TW __v, _Up* __mem, const _MaskMember<_Tp> __k)
-	noexcept
+      _S_masked_store(const _TW __v, _Up* __mem, _MaskMember<_Tp> __k) noexcept
       {
+	__k = _Abi::_S_masked(__k); // never store padding elements
 	constexpr size_t _TV_size = _S_size<_Tp>;
 	[[maybe_unused]] const auto __vi = __to_intrin(__v);
 	constexpr size_t __max_store_size
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index e57a756..563bfb0 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -853,6 +853,7 @@ template <typename _Abi>
 		     const _Up* __mem) noexcept
       {
 	static_assert(_Np == _S_size<_Tp>);
+	__k = _Abi::_S_masked(__k); // never load padding elements
 	if constexpr (is_same_v<_Tp, _Up> || // no conversion
 		      (sizeof(_Tp) == sizeof(_Up)
 		       && is_integral_v<
-- 
2.43.0


From 912cbed41e565880fa929212e8373919d04f30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 38/41] fix: install.sh --includedir

---
 install.sh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index ccd2906..cda114e 100755
--- a/install.sh
+++ b/install.sh
@@ -1,4 +1,5 @@
 #!/bin/sh
+olddir="$PWD"
 cd "${0%/*}"
 
 test -x "$CXX" || CXX=g++
@@ -55,7 +56,16 @@ while test $# -gt 0; do
   shift
 done
 
-test -z "$includedir" && includedir=`default_includedir` || exit 1
+case "$includedir" in
+  "")
+    includedir=`default_includedir` || exit 1
+    ;;
+  /*)
+    ;;
+  *)
+    includedir="$olddir/$includedir"
+    ;;
+esac
 if ! test -w "$includedir"; then
   echo "Error: Destination directory '$includedir' is not writable by the current user."
   exit 1
-- 
2.43.0


From c139f2679b4ade1343d31711f9374b0cd99c053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 39/41] fix: debug printing of masks and partial simds

---
 experimental/bits/simd_debug.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_debug.h b/experimental/bits/simd_debug.h
index 08bcf25..f955f54 100644
--- a/experimental/bits/simd_debug.h
+++ b/experimental/bits/simd_debug.h
@@ -166,13 +166,24 @@ private:
     __buffer << ' ' << __x;
   }
 
+  template <typename _Tp>
+  static auto __n_elements(const _Tp& __x, int) -> decltype(size_t(__x.size()))
+  {
+    return __x.size();
+  }
+
+  template <typename _Tp> static size_t __n_elements(const _Tp& __x, float)
+  {
+    return sizeof(_Tp) / sizeof(__x[0]);
+  }
+
   template <typename _Tp,
 	    typename = decltype(__buffer << declval<const _Tp&>()[0])>
   void __print(const _Tp& __x, float)
   {
-    using _U = __remove_cvref_t<decltype(__x[0])>;
+    const size_t __n = __n_elements(__x, int());
     __buffer << " {" << +__x[0];
-    for (size_t __i = 1; __i < sizeof(_Tp) / sizeof(_U); ++__i)
+    for (size_t __i = 1; __i < __n; ++__i)
       {
 	__buffer << ", " << +__x[__i];
       }
-- 
2.43.0


From 24ee0e8ac7b87a163ee6451f59139f7bd52285ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 40/41] fix: integer division with -ffast-math without AVX

---
 experimental/bits/simd_x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 563bfb0..eefd089 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1449,11 +1449,11 @@ template <typename _Abi>
 		      __r = __xf[__i];
 		      if constexpr (sizeof(_Tp) == 4)
 			asm("divpd\t{%1, %0|%0, %1}"
-			    : "=x"(__r)
+			    : "+x"(__r)
 			    : "x"(__yf[__i]));
 		      else
 			asm("divps\t{%1, %0|%0, %1}"
-			    : "=x"(__r)
+			    : "+x"(__r)
 			    : "x"(__yf[__i]));
 		    }
 		  return __r;
-- 
2.43.0


From 8a3d16b1022910d980a5d47a4a03d3df45dc6c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 41/41] fix: copysign of fixed_size simds with
 -fno-signed-zeros

---
 experimental/bits/simd_fixed_size.h | 2 +-
 experimental/bits/simd_math.h       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index c627598..a5bca54 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1673,7 +1673,7 @@ template <int _Np>
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, ldexp)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, fmod)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, remainder)
-    // copysign in simd_math.h
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, copysign)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, nextafter)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, fdim)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, fmax)
diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 197f063..30877b6 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1319,6 +1319,9 @@ template <typename _Tp, typename _Abi>
   {
     if constexpr (simd_size_v<_Tp, _Abi> == 1)
       return std::copysign(__x[0], __y[0]);
+    else if constexpr (__is_fixed_size_abi_v<_Abi>)
+      return {__private_init, _Abi::_SimdImpl::_S_copysign(__data(__x),
+							   __data(__y))};
     else if constexpr (is_same_v<_Tp, long double> && sizeof(_Tp) == 12)
       // Remove this case once __bit_cast is implemented via __builtin_bit_cast.
       // It is necessary, because __signmask below cannot be computed at compile
-- 
2.43.0

