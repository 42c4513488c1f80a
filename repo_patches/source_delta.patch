From 5540ae84b4c1bd7e0299194bf317b2386b434330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 01/98] fix: bint128 lost the sign of values in [-2^56, -2^55)

---
 datas/base_128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index 176d946..d7e9e39 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -54,8 +54,8 @@ struct bint128 {
 
   void Write(BinWritterRef wr) const {
     // there shouldn't be a sign flag for values lower than
-    // -72'057'594'037'927'936
-    bool sign = value < 0 && !(~(value >> 56));
+    // -36'028'797'018'963'968, sign flag only fits into first 8 bytes
+    bool sign = value < 0 && !(~(value >> 55));
     uint64 valueCopy = sign ? ~value : value;
     uint8 lastValue = 0;
     size_t lastIndex = 0;
-- 
2.43.0


From 90a00fb6eab04addb510fabe31b0867037d25f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 02/98] fix: bint128 wrote a 10th byte for values below -2^56

---
 datas/base_128.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index d7e9e39..3a87e7b 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -64,7 +64,7 @@ struct bint128 {
       lastValue = static_cast<uint8>(valueCopy);
       valueCopy >>= 7;
 
-      if (!valueCopy) {
+      if (!valueCopy || lastIndex == 8) {
         break;
       }
 
-- 
2.43.0


From 0d65cb3c1b3e75c6b7c35c38894c74010f26fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 03/98] fix: swapped write of C arrays wrote a swapped pointer

---
 datas/binwritter_ref.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/datas/binwritter_ref.hpp b/datas/binwritter_ref.hpp
index 529b532..2706dd5 100644
--- a/datas/binwritter_ref.hpp
+++ b/datas/binwritter_ref.hpp
@@ -90,6 +90,19 @@ public:
     Write<charType>(0);
   }
 
+  // Write array, counterpart of array Read
+  template <typename T, size_t _size> void Write(const T (&value)[_size]) const {
+    if (this->swapEndian && sizeof(T) > 1) {
+      for (auto &v : value) {
+        auto outCopy = v;
+        FByteswapper(outCopy, true);
+        WriteBuffer(reinterpret_cast<const char *>(&outCopy), sizeof(T));
+      }
+    } else {
+      WriteBuffer(reinterpret_cast<const char *>(value), sizeof(value));
+    }
+  }
+
   // SFINAE
   // Write class with its Write(BinWritterRef_t) const member method, or writes
   // type itself
-- 
2.43.0


From 7b83509a906215af3b841f1b0d19398422915dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 04/98] fix: single member bit fields had no member access

BitField<head> lacked numItems and Get, so a BitFieldType with one member
could not be read, written or byte swapped.
---
 datas/bitfield.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/datas/bitfield.hpp b/datas/bitfield.hpp
index ea34a8b..2c302e0 100644
--- a/datas/bitfield.hpp
+++ b/datas/bitfield.hpp
@@ -71,9 +71,18 @@ protected:
 };
 
 template <class head> struct BitField<head> {
+  static constexpr size_t numItems = 1;
   using type = head;
   static constexpr size_t totalSize = type::size;
 
+  static constexpr BitMember Get(size_t index) {
+    return Get_(index, totalSize);
+  }
+
+  template <class memdecl> static constexpr BitMember Get() {
+    return Get(memdecl::index);
+  }
+
   static constexpr BitMember Get_(size_t, size_t size) {
     return {size - totalSize, head::size};
   }
-- 
2.43.0


From a3ffba34e120824969470ac50f2bb26fa23ed512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 05/98] fix: 4 component vectors or-assigned with and

V4ScalarType::operator|= computed *this & input, for vectors and scalars.
---
 datas/vectors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index f4cb016..1874290 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -356,7 +356,7 @@ public:
   vec_ref operator*=(vec_cref input) { return *this = *this * input; }
   vec_ref operator/=(vec_cref input) { return *this = *this / input; }
   vec_ref operator&=(vec_cref input) { return *this = *this & input; }
-  vec_ref operator|=(vec_cref input) { return *this = *this & input; }
+  vec_ref operator|=(vec_cref input) { return *this = *this | input; }
   vec_ref operator>>=(shift_vec input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_vec input) { return *this = *this << input; }
 
@@ -365,7 +365,7 @@ public:
   vec_ref operator*=(value_type input) { return *this = *this * input; }
   vec_ref operator/=(value_type input) { return *this = *this / input; }
   vec_ref operator&=(value_type input) { return *this = *this & input; }
-  vec_ref operator|=(value_type input) { return *this = *this & input; }
+  vec_ref operator|=(value_type input) { return *this = *this | input; }
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-- 
2.43.0


From a5852231944b7eb07a51e7808193c8d34da2e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 06/98] fix: 4 component vectors had no usable operators with a
 scalar

The const operators assigned to *this, so none of them (and no unary minus
or scalar compound assignment) compiled.
---
 datas/vectors.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index 1874290..9452c49 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -327,28 +327,28 @@ public:
   }
 
   vector operator+(value_type input) const {
-    return *this = *this + vector(input);
+    return *this + vector(input);
   }
   vector operator-(value_type input) const {
-    return *this = *this - vector(input);
+    return *this - vector(input);
   }
   vector operator*(value_type input) const {
-    return *this = *this * vector(input);
+    return *this * vector(input);
   }
   vector operator/(value_type input) const {
-    return *this = *this / vector(input);
+    return *this / vector(input);
   }
   vector operator&(value_type input) const {
-    return *this = *this & vector(input);
+    return *this & vector(input);
   }
   vector operator|(value_type input) const {
-    return *this = *this | vector(input);
+    return *this | vector(input);
   }
   vector operator>>(shift_value input) const {
-    return *this = *this >> vector(input);
+    return *this >> vector(input);
   }
   vector operator<<(shift_value input) const {
-    return *this = *this << vector(input);
+    return *this << vector(input);
   }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
-- 
2.43.0


From d9c6e3ce37ff51df8b0892018f0cc9264507dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 07/98] fix: vectors could only be shifted by a scalar when
 made of int32

The scalar was converted to a vector of the element type, shifts take a
vector of shift_value.
---
 datas/vectors.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index 9452c49..a91d29b 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -69,8 +69,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector2<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector2<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -197,8 +201,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -345,10 +353,10 @@ public:
     return *this | vector(input);
   }
   vector operator>>(shift_value input) const {
-    return *this >> vector(input);
+    return *this >> V4ScalarType<shift_value>(input);
   }
   vector operator<<(shift_value input) const {
-    return *this << vector(input);
+    return *this << V4ScalarType<shift_value>(input);
   }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
-- 
2.43.0


From 45c742c06c67d09aaeb81795d5d8f9c797dbd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 08/98] fix: V4SimdFltType::IsSymetrical ignored W

Only X == Y == Z was tested, (1, 1, 1, 5) passed as symmetrical.
---
 datas/vectors_simd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index 7b2e079..6584a7c 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -171,8 +171,8 @@ public:
   // Check if X == Y == Z == W
   bool IsSymetrical() const {
     const store_type temp =
-        _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(3, 1, 0, 2));
-    return Compare(_mm_hsub_ps(_data, _data), _mm_hsub_ps(temp, temp));
+        _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(0, 0, 0, 0));
+    return Compare(_data, temp);
   }
 
   // Return -1 if [X | Y | Z | W] < 0
-- 
2.43.0


From 0c618bbed06c27e5dac9f15e5e20fbe9d0554d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 09/98] fix: negating unsigned 4 component vectors converted
 -1.f to unsigned

The conversion is undefined, V4ScalarType<uint32>(1, 2, 3, 4) could come out
unchanged or zero. Use an integer like the 2 and 3 component vectors do.
---
 datas/vectors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index a91d29b..42f9e93 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -377,7 +377,7 @@ public:
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-  vector operator-() const { return *this * -1.f; }
+  vector operator-() const { return *this * -1; }
 
   bool IsSymetrical() const { return (X == Y) && (X == Z) && (Z == W); }
 
-- 
2.43.0


From 488bfffa11d85af4efa4418c9fae15f13a920db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 10/98] fix: esFloat::ToFloat decoded negative denormals as
 about -1

The sign was put in front of the rebased value, -(0.5 + x) - 0.5. Half 0x8001
came out as -1 and 0x8000 (-0) too. The vector decoder was right.
---
 datas/float.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index f617ee5..ca63983 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -47,7 +47,7 @@ public:
         finResult += IVector4A16(EXP_REF, 0, 0, 0);
       }
     } else {
-      finResult *= IVector4A16(0, 0, 1, 1);
+      finResult *= IVector4A16(0, 0, 0, 1);
       finResult += IVector4A16(0x3f000000, 0, 0, 0);
     }
 
@@ -57,7 +57,12 @@ public:
         0);
     const float resultFl = reinterpret_cast<const float &>(result);
 
-    return exponentI ? resultFl : resultFl - 0.5f;
+    if (exponentI) {
+      return resultFl;
+    }
+
+    const float denormal = resultFl - 0.5f;
+    return shEMS.Z ? -denormal : denormal;
   }
 
   static size_t FromFloat(float input) {
-- 
2.43.0


From 4c6e1590b3fe2dae8e4726e6b96229005816c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 11/98] fix: VectorR11G11B10_UFLOAT decoded its components with
 an 11 bit mantissa

The components are 5 bit exponents with 6 (5) bit mantissas. The exponent was
taken from bits the component does not have, 0x3c0 (1.0) decoded as a denormal.
---
 datas/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index ca63983..a846d80 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -167,7 +167,7 @@ typedef esFloat<10, 5, true> float16;
 
 struct VectorR11G11B10_UFLOAT {
   uint32 data;
-  typedef esFloat<11, 5, false> codec_type;
+  typedef esFloat<6, 5, false> codec_type;
 
   operator Vector4A16() const {
     const IVector4A16 input0(IVector4A16(data) *
-- 
2.43.0


From f958fd81a89919d0a2d414cef5559fab6c30994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 12/98] fix: denormals of small floats with less than 10
 mantissa bits were too small

Rebasing with 0.5 gives the lowest bit the weight of 2^-24, which is only right
for half floats. R11G11B10 denormals came out 16 (unsigned) or 32 times smaller.
---
 datas/float.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index a846d80..68396c8 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -27,6 +27,9 @@ public:
   static constexpr size_t SIGN_MASK = _sign ? 1 << (TOTAL_SIZE - 1) : 0;
   static constexpr size_t EXP_REF =
       (0x3f800000 - ((EXPONENT_MASK_NS >> 1) << 23));
+  // Places the lowest denormal bit into a mantissa of [0.5, 1)
+  static constexpr size_t DENORM_SHIFT =
+      25 - (EXPONENT_MASK_NS >> 1) - _mantissa;
 
   static float ToFloat(size_t value) {
     const IVector4A16 vtored(static_cast<int32>(value));
@@ -34,7 +37,8 @@ public:
                                                    SIGN_MASK, MANTISSA_MASK));
     const IVector4A16 shEMS(mskEMSM * IVector4A16(1 << (23 - _mantissa),
                                                   1 << (23 - _mantissa),
-                                                  1 << (32 - TOTAL_SIZE), 1));
+                                                  1 << (32 - TOTAL_SIZE),
+                                                  1 << DENORM_SHIFT));
     const size_t exponentI = mskEMSM.X;
     IVector4A16 finResult(shEMS);
 
@@ -153,7 +157,8 @@ public:
     const IVector4A16 denormMask(
         _mm_cmpeq_epi32(exponentI._data, IVector4A16()._data));
 
-    const IVector4A16 denormResult0((value & MANTISSA_MASK) | 0x3f000000);
+    const IVector4A16 denormResult0(
+        ((value & MANTISSA_MASK) << DENORM_SHIFT) | 0x3f000000);
     const Vector4A16 denormResult1(_to_ps(denormResult0) - 0.5f);
 
     const IVector4A16 finalResult(_to_se(
-- 
2.43.0


From 8751a33ff8dfbc7f3d7ffc4128f6cbe0a8889b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 13/98] fix: small floats encoded values below 1.5 (0.5 for
 vectors) as denormals

FromFloat took everything whose value + 0.5 has exponent bits in common with
0.5 for a denormal: 1.0 and 0.25 were encoded as 0. Negative denormals were
encoded as normals and a denormal that rounds up to the lowest normal became 0.
---
 datas/float.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index 68396c8..85917a6 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -30,6 +30,8 @@ public:
   // Places the lowest denormal bit into a mantissa of [0.5, 1)
   static constexpr size_t DENORM_SHIFT =
       25 - (EXPONENT_MASK_NS >> 1) - _mantissa;
+  // Lowest magnitude that is not a denormal
+  static constexpr size_t MIN_NORMAL = EXP_REF + (1 << 23);
 
   static float ToFloat(size_t value) {
     const IVector4A16 vtored(static_cast<int32>(value));
@@ -71,13 +73,14 @@ public:
 
   static size_t FromFloat(float input) {
     const size_t cvted = reinterpret_cast<uint32 &>(input);
-    const float catchDenormal = input + 0.5f;
+    const float catchDenormal = fabsf(input) + 0.5f;
     const size_t cvtedDenorm = reinterpret_cast<const uint32 &>(catchDenormal);
     const size_t mskExp = cvted & 0x7f800000;
-    const bool isSubNorm = (cvtedDenorm & 0x3f000000) == 0x3f000000;
+    const bool isSubNorm = (cvted & 0x7fffffff) < MIN_NORMAL;
 
-    size_t result =
-        (isSubNorm ? cvtedDenorm : (cvted >> (23 - _mantissa))) & MANTISSA_MASK;
+    // A denormal can round up to MIN_NORMAL
+    size_t result = isSubNorm ? (cvtedDenorm - 0x3f000000) >> DENORM_SHIFT
+                              : (cvted >> (23 - _mantissa)) & MANTISSA_MASK;
 
     if (_sign && cvted & 0x80000000) {
       result |= SIGN_MASK;
@@ -109,17 +112,19 @@ public:
     const IVector4A16 mskExp(cvted & 0x7f800000);
     const IVector4A16 shtMant(cvted >> (23 - _mantissa));
 
-    value += 0.5f;
-    const IVector4A16 cvtedDenorm = _to_se(value);
-    const IVector4A16 mskExpDenorm(cvtedDenorm & 0x7f800000);
+    const IVector4A16 magnitude(cvted & 0x7fffffff);
+    const Vector4A16 catchDenormal(_to_ps(magnitude) + 0.5f);
+    // A denormal can round up to MIN_NORMAL
+    const IVector4A16 cvtedDenorm((_to_se(catchDenormal) - 0x3f000000) >>
+                                  DENORM_SHIFT);
 
     const IVector4A16 denormMask(
-        _mm_cmpeq_epi32(mskExpDenorm._data, IVector4A16(0x3f000000)._data));
+        _mm_cmplt_epi32(magnitude._data, IVector4A16(MIN_NORMAL)._data));
 
-    const Vector4A16 blendMant(_mm_blendv_ps(_to_ps(shtMant)._data,
-                                             _to_ps(cvtedDenorm)._data,
-                                             _to_ps(denormMask)._data));
-    const IVector4A16 maskedMant(_to_se(blendMant) & MANTISSA_MASK);
+    const Vector4A16 blendMant(
+        _mm_blendv_ps(_to_ps(shtMant & MANTISSA_MASK)._data,
+                      _to_ps(cvtedDenorm)._data, _to_ps(denormMask)._data));
+    const IVector4A16 maskedMant(_to_se(blendMant));
 
     const IVector4A16 nanMask(
         _mm_cmpeq_epi32(mskExp._data, IVector4A16(0x7f800000)._data));
-- 
2.43.0


From c1b8cbfa70ba24b3a3dc921540b7d9cab9b4ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 14/98] fix: esFloat::ToVector4 decoded NaN as infinity

The mantissa was dropped, ToFloat keeps it.
---
 datas/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index 85917a6..094550f 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -156,7 +156,7 @@ public:
                                mantissa);
 
     const auto imNANNZ = _mm_blendv_ps(_to_ps(nzResult)._data,
-                                       _to_ps(IVector4A16(0x7f800000))._data,
+                                       _to_ps(mantissa | 0x7f800000)._data,
                                        _to_ps(exponentMask)._data);
 
     const IVector4A16 denormMask(
-- 
2.43.0


From 1c971eca506db8d5bafdab7206d79c75b411117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 15/98] fix: small floats encoded values out of range with a
 wrapped exponent

1e6 became a small number. Such values are infinite now.
---
 datas/float.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index 094550f..c26346f 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -32,6 +32,8 @@ public:
       25 - (EXPONENT_MASK_NS >> 1) - _mantissa;
   // Lowest magnitude that is not a denormal
   static constexpr size_t MIN_NORMAL = EXP_REF + (1 << 23);
+  // Lowest exponent that is too large
+  static constexpr size_t MAX_EXPONENT = EXP_REF + (EXPONENT_MASK_NS << 23);
 
   static float ToFloat(size_t value) {
     const IVector4A16 vtored(static_cast<int32>(value));
@@ -88,6 +90,8 @@ public:
 
     if (mskExp == 0x7f800000) {
       result |= EXPONENT_MASK;
+    } else if (mskExp >= MAX_EXPONENT) {
+      result = (result & SIGN_MASK) | EXPONENT_MASK;
     } else if (!isSubNorm) {
       const size_t unRef = mskExp - EXP_REF;
       result |= (unRef >> (23 - _mantissa)) & EXPONENT_MASK;
@@ -124,17 +128,19 @@ public:
     const Vector4A16 blendMant(
         _mm_blendv_ps(_to_ps(shtMant & MANTISSA_MASK)._data,
                       _to_ps(cvtedDenorm)._data, _to_ps(denormMask)._data));
-    const IVector4A16 maskedMant(_to_se(blendMant));
-
-    const IVector4A16 nanMask(
-        _mm_cmpeq_epi32(mskExp._data, IVector4A16(0x7f800000)._data));
+    const IVector4A16 isFinite(
+        _mm_cmplt_epi32(mskExp._data, IVector4A16(0x7f800000)._data));
+    const IVector4A16 infMask(
+        _mm_cmpgt_epi32(mskExp._data, IVector4A16(MAX_EXPONENT - 1)._data));
+    const IVector4A16 maskedMant(
+        _mm_andnot_si128((infMask & isFinite)._data, _to_se(blendMant)._data));
 
     const IVector4A16 unRef(((mskExp - EXP_REF) >> (23 - _mantissa)) &
                             EXPONENT_MASK);
 
     const Vector4A16 blendExp0(_mm_blendv_ps(_to_ps(unRef)._data,
                                              _to_ps(EXPONENT_MASK)._data,
-                                             _to_ps(nanMask)._data));
+                                             _to_ps(infMask)._data));
 
     const Vector4A16 blendExp1(_mm_blendv_ps(blendExp0._data,
                                             Vector4A16()._data,
-- 
2.43.0


From 45d5be95f04628aa9f30357fc187511b2d154168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 16/98] fix: the last component of R11G11B10 and R5G6B5
 contained a bit of the previous one

B is shorter than the others and was extracted with their width. Fixes UNORM,
FLOAT and UFLOAT. The tests expect it from NORM.
---
 datas/float.hpp              |  3 ++-
 uni/internal/format_full.hpp | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index c26346f..d7b2b8e 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -188,7 +188,8 @@ struct VectorR11G11B10_UFLOAT {
   operator Vector4A16() const {
     const IVector4A16 input0(IVector4A16(data) *
                              IVector4A16(1 << 21, 1 << 10, 1, 0));
-    const IVector4A16 input1(input0 >> 21);
+    // Bit 21 of the third one belongs to the second one
+    const IVector4A16 input1((input0 >> 21) & IVector4A16(-1, -1, -2, 0));
 
     return codec_type::ToVector4(input1);
   }
diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 5f3659d..4f82530 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -462,7 +462,10 @@ public:
   }
 
   static Vector4A16 GetValue(const char *input) {
-    return Vector4A16(GetValueNoFrac(input)) * GetFraction(11);
+    // Lowest bit of B belongs to G
+    const UIVector4A16 result(GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
+    return Vector4A16(result) * GetFraction(11);
   }
 };
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R24G8> {
@@ -508,7 +511,10 @@ public:
   }
 
   static Vector4A16 GetValue(const char *input) {
-    return Vector4A16(GetValueNoFrac(input)) * GetFraction(6);
+    // Lowest bit of B belongs to G
+    const UIVector4A16 result(GetValueNoFrac(input) &
+                              UIVector4A16(0x3e, 0x3f, 0x3e, 0));
+    return Vector4A16(result) * GetFraction(6);
   }
 };
 
@@ -760,7 +766,9 @@ template <> class FormatCodec_t<FormatType::FLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // Lowest bit of B belongs to G
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
@@ -772,7 +780,9 @@ template <> class FormatCodec_t<FormatType::UFLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // Lowest bit of B belongs to G
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
-- 
2.43.0


From 2fe6cf380a6c380f68112ad07d09358a1539cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 17/98] fix: 1, 2 and 3 component formats were read past their
 end

Sampling the last element of a buffer accessed up to 8 bytes behind it.
---
 uni/internal/format_full.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 4f82530..5fa1fd5 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -99,15 +99,15 @@ public:
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32G32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
+    const auto inputRC = *reinterpret_cast<const IVector2 *>(input);
     return IVector4A16(inputRC.X, inputRC.Y, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
-    return IVector4A16(inputRC.X, 0, 0, 0);
+    const auto inputRC = *reinterpret_cast<const int32 *>(input);
+    return IVector4A16(inputRC, 0, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R16G16B16A16> {
@@ -354,7 +354,9 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R16G16B16> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint64 rtVal = reinterpret_cast<const uint64 &>(*input);
+    const auto inputRC = *reinterpret_cast<const USVector *>(input);
+    const uint64 rtVal = inputRC.X | (static_cast<uint32>(inputRC.Y) << 16) |
+                         (static_cast<uint64>(inputRC.Z) << 32);
     UIVector4A16 vctr(_mm_set1_epi64x(rtVal)); // XY, ZW, XY, ZW
     const UIVector4A16 result((vctr * UIVector4A16(1 << 16, 1 << 16, 1, 0)) >>
                               16); // X, Z, Y, W
@@ -404,7 +406,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R8G8B8> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint32 rtVal = reinterpret_cast<const uint32 &>(*input);
+    const auto inputRC = *reinterpret_cast<const UCVector *>(input);
+    const uint32 rtVal = inputRC.X | (inputRC.Y << 8) | (inputRC.Z << 16);
     UIVector4A16 vctr(rtVal);
     return (vctr * UIVector4A16(1 << 24, 1 << 16, 1 << 8, 0)) >> 24;
   }
-- 
2.43.0


From 9e4951503c9b3b09cb7e8d626f2aa4adbafb936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 18/98] fix: JenHash3 ignored the last 12 bytes of names whose
 length is a multiple of 12

---
 datas/jenkinshash3.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/jenkinshash3.hpp b/datas/jenkinshash3.hpp
index 9cfd7c0..f091ae3 100644
--- a/datas/jenkinshash3.hpp
+++ b/datas/jenkinshash3.hpp
@@ -110,7 +110,12 @@ constexpr uint32 JenkinsHash3_(es::string_view input, uint32 seed = 0) {
     cTrip.Mix();
   }
 
-  size_t lastKeys = input.size() == 12 ? 12 : input.size() % 12;
+  size_t lastKeys = input.size() % 12;
+
+  if (!lastKeys && input.size()) {
+    lastKeys = 12;
+  }
+
   JenTriplet_ lastTrip;
 
   if (lastKeys > 8) {
-- 
2.43.0


From 7d853f01e50fb00c648bfe4eb62b843cd50ca597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 19/98] fix: dereferencing a const PointerX86 did not compile

---
 datas/pointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index d7e7cff..56e40a9 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -86,7 +86,7 @@ public:
                         reinterpret_cast<const char *>(&varPtr) + varPtr)
                   : nullptr;
   }
-  const C &operator*() const { return *static_cast<C *>(*this); }
+  const C &operator*() const { return *static_cast<const C *>(*this); }
   const C *operator->() const { return *this; }
 
   bool Fixed() const {
-- 
2.43.0


From 67147429d0e535464e835a03bb7d92dab005588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 20/98] fix: PointerX86 assigned nullptr was not null

---
 datas/pointer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index 56e40a9..2647ce5 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -113,8 +113,9 @@ public:
 
   PointerX86 &operator=(C *newDest) {
     uintptr_t _rawDest = reinterpret_cast<uintptr_t>(newDest);
-    varPtr =
-        static_cast<uint32>(_rawDest - reinterpret_cast<uintptr_t>(&varPtr));
+    varPtr = newDest ? static_cast<uint32>(_rawDest - reinterpret_cast<uintptr_t>(
+                                                          &varPtr))
+                     : 0;
 
     return *this;
   }
-- 
2.43.0


From 700d58dfe0590a23acf4022d51ffc21ecb2672cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 21/98] fix: swapping containers with linked storage freed the
 linked storage

---
 datas/allocator_hybrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 4ada4c8..f325bd0 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -51,6 +51,7 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
   typedef const value_type &const_reference;
   typedef std::true_type propagate_on_container_copy_assignment;
   typedef std::true_type propagate_on_container_move_assignment;
+  typedef std::true_type propagate_on_container_swap;
 
   pointer buffer;
 
-- 
2.43.0


From b337c98633ace6654e906e9987e3b49c3a359db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 22/98] fix: growing a container with linked storage wrote past
 the storage and freed it

---
 datas/allocator_hybrid.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index f325bd0..abc12ad 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -54,6 +54,8 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
   typedef std::true_type propagate_on_container_swap;
 
   pointer buffer;
+  // Linked storage is handed out only once, it cannot grow
+  bool linked = false;
 
   allocator_hybrid() noexcept : buffer(nullptr) {}
 
@@ -64,18 +66,21 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
 
   allocator_hybrid(const allocator_hybrid<value_type> &input) noexcept {
     buffer = input.buffer;
+    linked = input.linked;
   }
 
   _DECLSPEC_ALLOCATOR pointer allocate(size_t count) {
-    if (!buffer)
+    if (!buffer || linked)
       return static_cast<pointer>(operator new(count * sizeof(value_type)));
-    else
-      return buffer;
+
+    linked = true;
+    return buffer;
   }
 
   void deallocate(pointer ptr, size_t) {
     if (buffer == ptr) {
       buffer = nullptr;
+      linked = false;
       return;
     }
 
-- 
2.43.0


From 2a4b90812a201d259d73e1d56b7162612145bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 23/98] fix: a container linked to empty storage wrote past it
 when growing

---
 datas/allocator_hybrid.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index abc12ad..8e3159a 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -34,12 +34,17 @@ struct allocator_hybrid_base {
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start,
                           typename C::pointer end) {
+    // Nothing to use in place
+    if (start == end) {
+      return DisposeStorage(input);
+    }
+
     input = C(start, end, typename C::allocator_type(start));
   }
 
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start, size_t count) {
-    input = C(start, start + count, typename C::allocator_type(start));
+    LinkStorage(input, start, start + count);
   }
 };
 
-- 
2.43.0


From 7d39f19022afd0cec5cd6c67690fc6e3fe582aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 24/98] fix: string_view::find skipped the last position and
 the first character

---
 datas/internal/string_view.inl | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 1322ba7..1062e21 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -299,14 +299,10 @@ namespace es {
 
     const size_type max_index = m_size - v.size();
 
-    for (size_type i = pos; i < max_index; ++i) {
-      size_type j = v.size() - 1;
+    for (size_type i = pos; i <= max_index; ++i) {
+      size_type j = v.size();
 
-      if (!j) {
-        j = m_str[i] == v[j] ? 0 : 1;
-      } else {
-        for (;j && v[j] == m_str[i + j]; j--);
-      }
+      for (;j && v[j - 1] == m_str[i + j - 1]; j--);
 
       if (!j)
         return i;
-- 
2.43.0


From 58cfa3dac288f35ce04b7f44815229c1a3427103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 25/98] fix: string_view::rfind compared backwards, in front of
 the view

---
 datas/internal/string_view.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 1062e21..cd6b004 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -346,12 +346,16 @@ namespace es {
                                             size_type pos )
     const
   {
+    if( v.size() > m_size ) {
+      return npos;
+    }
+
     const size_type max_index = m_size - v.size();
 
-    for( size_type i = std::min(max_index-1,pos); i != npos; --i ) {
+    for( size_type i = std::min(max_index,pos); i != npos; --i ) {
       size_type j = 0;
       for( ; j < v.size(); ++j ) {
-        if( v[j] != m_str[i-j] ) {
+        if( v[j] != m_str[i+j] ) {
           break;
         }
       }
-- 
2.43.0


From e85a70df8672b6e4386dfa52ce56d7ef37bf9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 26/98] fix: string_view::find_last_of read in front of an
 empty view

---
 datas/internal/string_view.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index cd6b004..ec424a3 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -444,7 +444,11 @@ namespace es {
                                                    size_type pos )
     const
   {
-    for( size_type i = std::min(m_size-1,pos); i >= 0 && i != npos; --i ) {
+    if( empty() ) {
+      return npos;
+    }
+
+    for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
       for( size_type j = 0; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           return i;
-- 
2.43.0


From 3253aa85ef02b8c81b3850000b48cbcc8d1d698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 27/98] fix: string_view::find_*_not_of compared only the first
 character of the set

---
 datas/internal/string_view.inl | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index ec424a3..bc084a6 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -495,10 +495,13 @@ namespace es {
     const
   {
     for( size_type i = pos; i < m_size; ++i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
+      }
+      if( j == v.size() ) {
         return i;
       }
     }
@@ -540,11 +543,18 @@ namespace es {
                                                        size_type pos )
     const
   {
+    if( empty() ) {
+      return npos;
+    }
+
     for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
+      }
+      if( j == v.size() ) {
         return i;
       }
     }
-- 
2.43.0


From 097266fc80c6a2d078cce3277a52d2c17088b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 28/98] fix: string_view::copy wrote one character too many

---
 datas/internal/string_view.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index bc084a6..4fb2ffa 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -214,7 +214,7 @@ namespace es {
   {
     if(pos >= m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
 
-    const size_type rcount = std::min(m_size - pos,count+1);
+    const size_type rcount = std::min(m_size - pos,count);
     std::copy( m_str + pos, m_str + pos + rcount, dest);
     return rcount;
   }
-- 
2.43.0


From 8ab4e8f7ed1c5f6ebff35f61c3d3c8e8a0ecb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 29/98] fix: whitespace skipping read outside of an empty or
 blank view

---
 datas/supercore.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index abb2ca6..326b52a 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -95,9 +95,8 @@ bool IsEnd(const cnt &container, const iterType &iter) {
 
 template <class sview>
 sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input[0] == ' ' || input[0] == '\t' ||
-          (inclNewLine && input[0] == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input[0] == ' ' || input[0] == '\t' ||
+                            (inclNewLine && input[0] == '\n')))
     input.remove_prefix(1);
 
   return input;
@@ -105,9 +104,8 @@ sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
 
 template <class sview>
 sview SkipEndWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input.back() == ' ' || input.back() == '\t' ||
-          (inclNewLine && input.back() == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input.back() == ' ' || input.back() == '\t' ||
+                            (inclNewLine && input.back() == '\n')))
     input.remove_suffix(1);
 
   return input;
-- 
2.43.0


From f432e46d738a44c440c0a84291a0efeedd127043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 30/98] fix: SetReflectedValue(id, value, subID) wrote past the
 end of the array and ignored flags

---
 datas/reflector.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1ef44b2..757cbc9 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -507,6 +507,36 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   size_t subID) {
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
+
+  if (type.type == REFType::EnumFlags) {
+    // subID is an index of a single flag
+    if (subID >= type.subSize * 8U) {
+      printerror("[Reflector] Flag index out of range: " << subID);
+      return ErrorType::OutOfRange;
+    }
+
+    bool flagValue = false;
+    const ErrorType err =
+        SetBoolean(es::SkipStartWhitespace(value), flagValue);
+
+    if (err != ErrorType::None)
+      return err;
+
+    uint64 eValue = 0;
+    memcpy(&eValue, thisAddr + type.offset, type.subSize);
+    const uint64 mask = 1ULL << subID;
+    eValue = flagValue ? eValue | mask : eValue & ~mask;
+    memcpy(thisAddr + type.offset, &eValue, type.subSize);
+
+    return ErrorType::None;
+  }
+
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   thisAddr += type.offset + type.subSize * subID;
   type.type = type.subType;
 
-- 
2.43.0


From f06f5946a94fae06b902c98a549e3609f9c29a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 31/98] fix: SetReflectedValue(id, value, subID, element)
 checked element against its size

---
 datas/reflector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 757cbc9..77f48cb 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -573,8 +573,8 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
     _DecomposedVectorHash dec = {type.typeHash};
     type.subSize = dec.size;
 
-    if (element >= dec.size) {
-      printerror("[Reflector] Too many vector elements, " << dec.size
+    if (subID >= type.numItems || element >= dec.numItems) {
+      printerror("[Reflector] Too many vector elements, " << dec.numItems
                                                           << " expected.");
       return ErrorType::OutOfRange;
     }
-- 
2.43.0


From cba14f8fff38da4723a43c5e19175b05df608070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 32/98] fix: a blank text after the last array element wrote
 past the end of the array

---
 datas/reflector.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 77f48cb..1ee09a6 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -379,9 +379,13 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
         return Reflector::ErrorType::OutOfRange;
       }
 
+      curIter = it + 1;
+
+      if (cValue.empty())
+        continue;
+
       SetReflectedMember(subVal, cValue,
                          objAddr + (reflValue.subSize * curElement));
-      curIter = it + 1;
       curElement++;
     }
   }
-- 
2.43.0


From 848089b0df57c0e376614a1cf8ed4d9984515795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 33/98] fix: a closing quote reopened the scope, so quoted
 array elements were dropped

---
 datas/reflector.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1ee09a6..bde690c 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -357,8 +357,7 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
 
     if ((*it == ']' || *it == '"' || *it == ')' || *it == '}') && localScope)
       localScope = false;
-
-    if (localScope || *it == '[' || *it == '"' || *it == '(' || *it == '{') {
+    else if (localScope || *it == '[' || *it == '"' || *it == '(' || *it == '{') {
       localScope = true;
       continue;
     }
-- 
2.43.0


From cf205c05e9a84ba67f6293fee885622341c70b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 34/98] fix: limits of bit field members with 31 or more bits
 were wrong

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index bde690c..6fceb59 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -105,7 +105,7 @@ template <class type> struct LimitProxy<BFTag<type>> {
   const int64 iMin;
 
   LimitProxy(size_t numBits_)
-      : numBits(numBits_), uMax((1 << numBits) - 1), iMax(uMax >> 1),
+      : numBits(numBits_), uMax(~0ULL >> (64 - numBits)), iMax(uMax >> 1),
         iMin(~iMax) {}
 };
 
-- 
2.43.0


From 9401e4519f4ec0fa5c66e2ad132f874f5b9e2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 35/98] fix: setting a bit field member touched bits and bytes
 outside of it

---
 datas/reflector.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 6fceb59..b6bae02 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -457,17 +457,25 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
     }
   }
   case REFType::BitFieldMember: {
-    uint64 &output = *reinterpret_cast<uint64 *>(objAddr);
+    // Access only bytes that are occupied by this member
+    const size_t numBytes = (reflValue.offset + reflValue.subSize + 7) / 8;
     auto doStuff = [&](auto &&insertVal) {
       LimitProxy<typename std::remove_reference<decltype(insertVal)>::type>
           proxy{reflValue.subSize};
       auto err = SetNumber(value, insertVal, std::true_type{}, proxy);
+
+      if (err == Reflector::ErrorType::InvalidFormat)
+        return err;
+
+      uint64 output = 0;
+      memcpy(&output, objAddr, numBytes);
       BitMember bfMember;
       bfMember.size = reflValue.subSize;
       bfMember.position = reflValue.offset;
       auto mask = bfMember.GetMask<uint64>();
       output &= ~mask;
-      output |= insertVal.value << reflValue.offset;
+      output |= (insertVal.value << reflValue.offset) & mask;
+      memcpy(objAddr, &output, numBytes);
       return err;
     };
 
@@ -827,7 +835,8 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     return _tmpBuffer;
   }
   case REFType::BitFieldMember: {
-    uint64 output = *reinterpret_cast<const uint64 *>(objAddr);
+    uint64 output = 0;
+    memcpy(&output, objAddr, (type.offset + type.subSize + 7) / 8);
     BitMember bfMember;
     bfMember.size = type.subSize;
     bfMember.position = type.offset;
-- 
2.43.0


From 7c28efafe496a10d9870fdebe5e1751b99f9cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 36/98] fix: getting a flag with index 31 or higher tested the
 wrong bits

---
 datas/reflector.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index b6bae02..5382c21 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -963,11 +963,11 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID) const {
       return "";
     }
 
-    uint64 eValue;
+    uint64 eValue = 0;
 
     memcpy(reinterpret_cast<char *>(&eValue), objAddr, reflValue.subSize);
 
-    return (eValue & (1 << subID)) ? "true" : "false";
+    return (eValue & (1ULL << subID)) ? "true" : "false";
   }
 
   default:
@@ -1011,12 +1011,12 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID,
       return "";
     }
 
-    uint64 eValue;
+    uint64 eValue = 0;
 
     memcpy(reinterpret_cast<char *>(&eValue),
            objAddr + reflValue.subSize * subID, reflValue.subSize);
 
-    return (eValue & (1 << element)) ? "true" : "false";
+    return (eValue & (1ULL << element)) ? "true" : "false";
   }
 
   default:
-- 
2.43.0


From 2deab636ff766c7da64e5d44cec9baba1ccb263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 37/98] fix: getting a C string member returned bytes of its
 pointer

---
 datas/reflector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 5382c21..250fede 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -874,8 +874,10 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     break;
   }
 
-  case REFType::CString:
-    return objAddr;
+  case REFType::CString: {
+    const char *text = *reinterpret_cast<const char *const *>(objAddr);
+    return text ? text : "";
+  }
 
   case REFType::String:
     return *reinterpret_cast<const std::string *>(objAddr);
-- 
2.43.0


From 1af94f31eef87859f93cde66de5e010a09d0008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 38/98] fix: GetReflectedPair dereferenced missing aliases and
 descriptors

---
 datas/internal/reflector.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/internal/reflector.inl b/datas/internal/reflector.inl
index e1ef85e..3a09182 100644
--- a/datas/internal/reflector.inl
+++ b/datas/internal/reflector.inl
@@ -214,14 +214,16 @@ Reflector::GetReflectedPair(size_t id, const KVPairFormat &settings) const {
   const auto refInt = GetReflectedInstance().rfStatic;
 
   if (UseNames()) {
-    if (settings.aliasName && refInt->typeAliases[id]) {
+    if (settings.aliasName && refInt->typeAliases &&
+        refInt->typeAliases[id]) {
       retval.name = refInt->typeAliases[id];
     } else {
       retval.name = refInt->typeNames[id];
     }
   }
 
-  if (settings.formatValue && !refInt->typeDescs[id].part1.empty()) {
+  if (settings.formatValue && refInt->typeDescs &&
+      !refInt->typeDescs[id].part1.empty()) {
     retval.value =
         refInt->typeDescs[id].part1.to_string() + ' ' + GetReflectedValue(id);
 
-- 
2.43.0


From 51f7c31c88fd9206953c5346a2404af8b1758c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 39/98] fix: classes reflected without flags had no class hash
 and collided in the registry

---
 datas/internal/reflector_class.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datas/internal/reflector_class.hpp b/datas/internal/reflector_class.hpp
index 2c6f912..fd1ed3c 100644
--- a/datas/internal/reflector_class.hpp
+++ b/datas/internal/reflector_class.hpp
@@ -167,6 +167,7 @@ constexpr size_t _GetReflDescPart(const char (&value)[n], bool part2 = false) {
   template <> struct ReflectorType<classname> : ReflectorTypeBase {            \
     using value_type = classname;                                              \
     _REFLECTOR_MAIN_BODY(adtype, __VA_ARGS__);                                 \
+    _REFLECTOR_MAIN_CLASSHASH(_REFLECTOR_CNAME, classname)                     \
   };                                                                           \
   _REFLECTOR_INTERFACE(_REFLECTOR_CLASS, classname)
 
-- 
2.43.0


From bf4451ca4100cddc125a0cb6630b22388c43f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 40/98] fix: typed setters could not set the first element of
 an array or vector

---
 datas/reflector.cpp | 78 ++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 250fede..8616d3b 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -603,22 +603,22 @@ Reflector::SetReflectedValueInt(reflType reflValue, int64 value, size_t subID) {
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::Integer)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -634,22 +634,22 @@ Reflector::ErrorType Reflector::SetReflectedValueUInt(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::UnsignedInteger)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -665,22 +665,22 @@ Reflector::ErrorType Reflector::SetReflectedValueFloat(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::FloatingPoint)
     return Reflector::ErrorType::InvalidDestination;
 
-- 
2.43.0


From f96bfa35536584bd1992158de0ff7956e07d4903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 41/98] fix: positive text below the smallest float was stored
 as a negative number

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 8616d3b..13be9b7 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -74,7 +74,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
 
     double fVal = atof(input.c_str());
 
-    if (fVal > 0)
+    if (!std::signbit(fVal))
       output = fVal > 1.0 ? fMax : fMin;
     else
       output = fVal < -1.0 ? -fMax : -fMin;
-- 
2.43.0


From 211c35bed3046ba7e7bda5b8824d6311585d8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 42/98] fix: binary Save looked up members of nested classes in
 the outermost class

---
 datas/reflector_io.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d142d75..4557a3d 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -422,8 +422,7 @@ public:
   using Reflector::GetReflectedType;
 };
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr);
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr);
 
 static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
                          const char *objAddr, reflType type) {
@@ -488,16 +487,16 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
-    return SaveClass(ri, sri, wr);
+    return SaveClass(sri, wr);
   }
   default:
     return 1;
   }
 }
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr) {
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
   auto refData = inst.Refl();
+  ReflectorPureWrap ri(inst);
   const buint128 numItems = refData->nTypes;
   const char *thisAddr = static_cast<const char *>(inst.Instance());
   std::stringstream tmpClassBuffer;
@@ -535,7 +534,7 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
 
   wr.Write(refData->classHash);
 
-  return SaveClass(ri, inst, wr);
+  return SaveClass(inst, wr);
 }
 
 static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd);
-- 
2.43.0


From e307bc4ccf46ad1754a99e112053c8cb34b4c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 43/98] fix: binary Save and Load dereferenced null for members
 of unregistered classes

---
 datas/reflector_io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 4557a3d..d225e08 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -487,6 +487,10 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
+
+    if (!sri.Refl())
+      return 1;
+
     return SaveClass(sri, wr);
   }
   default:
@@ -599,6 +603,10 @@ static int LoadDataItem(Reflector &ri, BinReaderRef rd, char *objAddr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
+
+    if (!sri.Refl())
+      return 1;
+
     return LoadClass(sri, rd);
   }
   default:
-- 
2.43.0


From 0f7069127b04bb73d652c66d05629dd20bee27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 44/98] fix: binary Load reported success when a member other
 than the last could not be loaded

---
 datas/reflector_io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d225e08..2fa141e 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -651,9 +651,11 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
       continue;
     }
 
-    errType = LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
+    const int itemErrType =
+        LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
 
-    if (errType) {
+    if (itemErrType) {
+      errType = itemErrType;
       rd.Pop();
       rd.Skip(valueChunkSize);
     }
-- 
2.43.0


From 255e921461275771c0783d6e4c098706c0eeb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 45/98] fix: objects saved with swapped endianness could not be
 loaded

---
 datas/reflector_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 2fa141e..e4661c9 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -506,6 +506,7 @@ static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
   std::stringstream tmpClassBuffer;
 
   BinWritterRef wrTmpClass(tmpClassBuffer);
+  wrTmpClass.SwapEndian(wr.SwappedEndian());
   wrTmpClass.Write(numItems);
 
   for (size_t i = 0; i < numItems; i++) {
@@ -513,6 +514,7 @@ static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
 
     std::stringstream tmpValueBuffer;
     BinWritterRef wrTmp(tmpValueBuffer);
+    wrTmp.SwapEndian(wr.SwappedEndian());
 
     int rVal = WriteDataItem(ri, wrTmp, thisAddr + refData->types[i].offset,
                              refData->types[i]);
-- 
2.43.0


From a0c4e527a8a9b3d2c50d78ec9a18f1d727bc0c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 46/98] fix: alias hashes of stored reflection tables were not
 restored

---
 datas/reflector_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index e4661c9..580d999 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -148,7 +148,7 @@ int ReflectorIO::Load(BinReaderRef rd) {
     }
 
     if (itemIO->aliassesHashesPtr) {
-      itemPtrsBegin[3] = bufferStart + itemIO->aliassesHashesPtr;
+      itemPtrsBegin[4] = bufferStart + itemIO->aliassesHashesPtr;
     } else {
       itemPtrsBegin[4] = 0;
     }
@@ -404,6 +404,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   itemStringsFixups.WriteFixups();
   classnamesFixups.WriteFixups();
   aliasesFixups.WriteFixups();
+  aliasHashesFixups.WriteFixups();
   descsFixups.WriteFixups();
   wr.Seek(0, std::ios_base::end);
 
-- 
2.43.0


From 2c07bd3c0367d7dd43f974c02003b82cf46e8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 47/98] fix: take the bytes of a Blowfish key as unsigned

---
 datas/encrypt/blowfish.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index 63fbbf9..7c040de 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -462,7 +462,7 @@ void BlowfishEncoder::SetKey(es::string_view key) {
   uint64 lastblock = 0;
 
   memcpy(sboxes, BF_SBOXES, BF_NUMSBOXES * 4);
-  auto inKey = key.data();
+  auto inKey = reinterpret_cast<const uint8 *>(key.data());
   auto inSize = key.size();
 
   for (int i = 0; i < BF_NUMPBOXES; i++) {
@@ -555,15 +555,16 @@ void BlowfishEncoder2::SetKey(const char *inKey, int inSize) {
     CreateVector();
 
   uint64 lastblock = 0;
+  auto keyBytes = reinterpret_cast<const uint8 *>(inKey);
 
   memcpy(sboxes, BF_SBOXES, BF_NUMSBOXES * 4);
 
   for (int i = 0; i < BF_NUMPBOXES; i++) {
     const uint32 curKey = i * 4;
-    const uint32 keyEntry = *(inKey + ((curKey) % inSize)) |
-                            (*(inKey + ((curKey + 1) % inSize)) << 8) |
-                            (*(inKey + ((curKey + 2) % inSize)) << 16) |
-                            (*(inKey + ((curKey + 3) % inSize)) << 24);
+    const uint32 keyEntry = *(keyBytes + ((curKey) % inSize)) |
+                            (*(keyBytes + ((curKey + 1) % inSize)) << 8) |
+                            (*(keyBytes + ((curKey + 2) % inSize)) << 16) |
+                            (*(keyBytes + ((curKey + 3) % inSize)) << 24);
 
     pboxes[i] = BF_PBOXES[i] ^ keyEntry;
   }
-- 
2.43.0


From b8e5033153f52299a0ae0d52345b4cde2a73323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 48/98] fix: include path of supercore in xorenc.hpp

---
 datas/encrypt/xorenc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/encrypt/xorenc.hpp b/datas/encrypt/xorenc.hpp
index d778b32..08611ee 100644
--- a/datas/encrypt/xorenc.hpp
+++ b/datas/encrypt/xorenc.hpp
@@ -18,7 +18,7 @@
 
 #pragma once
 #include "encryptor.hpp"
-#include "supercore.hpp"
+#include "../supercore.hpp"
 
 class XOREncoder : public IEncryptor {
   es::string_view key;
-- 
2.43.0


From 347225bda97ddfe7df5719f0c5aa5da16178a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 49/98] fix: CompileFourCC of characters above 0x7f

---
 datas/supercore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index 326b52a..2c808d0 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -38,7 +38,7 @@ ES_STATIC_ASSERT(atohLUT[uint8('F')] == 15);
 template <size_t n> constexpr uint32 CompileFourCC(const char (&input)[n]) {
   uint32 retVal = 0;
   for (size_t i = 0; i < sizeof(retVal); i++) {
-    const uint32 tmp = input[i];
+    const uint32 tmp = static_cast<uint8>(input[i]);
     retVal |= tmp << (8 * i);
   }
 
-- 
2.43.0


From 30ad35b30cf5bc072231ceb124a50104c53a8654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 50/98] fix: file name parts of empty paths and of paths with a
 dot in a folder name

---
 datas/fileinfo.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 9525952..7e45814 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -30,8 +30,8 @@ public:
 
 private:
   string_type fullPath;
-  size_t endFolder;
-  size_t lastDot;
+  size_t endFolder = 0;
+  size_t lastDot = 0;
 
 public:
   FileInfo(stringref_type input) { Load(input); }
@@ -39,6 +39,8 @@ public:
 
   void Load(stringref_type input) {
     fullPath = input;
+    endFolder = 0;
+    lastDot = 0;
 
     if (!fullPath.size())
       return;
@@ -55,7 +57,7 @@ public:
     else
       endFolder = 0;
 
-    if (!lastDot || lastDot == fullPath.npos)
+    if (!lastDot || lastDot == fullPath.npos || lastDot < endFolder)
       lastDot = fullPath.size();
   }
 
-- 
2.43.0


From 5b812f83ad8d1d32186fd8a676c2eef384deef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 51/98] fix: CatchBranch of paths without a leading slash and
 of empty paths

---
 datas/fileinfo.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 7e45814..9addb69 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -95,12 +95,14 @@ public:
 
   string_type CatchBranch(const stringref_type &path) const {
     explode_type exVec = Explode();
-    const size_t found = path.find(exVec[0]);
+    const size_t found = exVec.empty() ? path.npos : path.find(exVec[0]);
 
     if (found == path.npos)
       return string_type(path).append(GetFilenameExt());
-    else
-      return string_type(path.begin(), found - 1).append(GetFullPath());
+
+    // the full path may bring its own separator
+    const size_t separator = found && fullPath[0] == '/';
+    return string_type(path.begin(), found - separator).append(GetFullPath());
   }
 };
 
-- 
2.43.0


From 8c33f3f98deb3b7f659f23314bf77a31e30810be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 52/98] fix: Explode of wide character paths did not compile

---
 datas/fileinfo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 9addb69..cb1b9b4 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -74,9 +74,9 @@ public:
 
   explode_type Explode() const {
     explode_type resVal;
-    const char *lastOffset = fullPath.data();
+    const T *lastOffset = fullPath.data();
     const size_t fullSize = fullPath.size();
-    const char *pathEnd = std::prev(fullPath.end()).operator->() + 1;
+    const T *pathEnd = std::prev(fullPath.end()).operator->() + 1;
 
     if (*lastOffset == '/')
       lastOffset++;
-- 
2.43.0


From 41d3679446ede3514192b86d455054376cd95612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 53/98] fix: FileType reported sockets and block devices as
 directories

---
 datas/internal/stat_ix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/stat_ix.inl b/datas/internal/stat_ix.inl
index d762f3a..870a8be 100644
--- a/datas/internal/stat_ix.inl
+++ b/datas/internal/stat_ix.inl
@@ -20,9 +20,9 @@
 FileType_e FileType(const std::string &path) {
   struct stat s;
   if (!stat(path.data(), &s)) {
-    if (s.st_mode & S_IFDIR) {
+    if (S_ISDIR(s.st_mode)) {
       return FileType_e::Directory;
-    } else if (s.st_mode & S_IFREG) {
+    } else if (S_ISREG(s.st_mode)) {
       return FileType_e::File;
     } else {
       return FileType_e::Invalid;
-- 
2.43.0


From f8e4b1c90a8169f53884943e6cc97027460075ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:12 +0000
Subject: [PATCH 54/98] fix: mean color of BC1 blocks with alpha was too dark

---
 formats/BlockDecoder.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 147246a..6e8675f 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -81,7 +81,7 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         ((((color1 * (1.0f / 3.0f)) + (color2 * (2.0f / 3.0f)))) * 255.f)
             .Convert<uint8>();
   } else {
-    *(colors + 2) = ((color1 + color2) * 127.f).Convert<uint8>();
+    *(colors + 2) = ((color1 + color2) * 127.5f).Convert<uint8>();
     *(colors + 3) = *(colors + 2);
     usealpha = true;
   }
-- 
2.43.0


From 5ea50a01bf3f7cacb80ab5623bee9ea538ac8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 55/98] fix: alpha of opaque BC1 blocks was left unset

---
 formats/BlockDecoder.inl | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 6e8675f..42ac346 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -102,20 +102,18 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         *(obuffer + ((h + row) * width + w + 3) * pixeloffset)) = colors[d4];
     data++;
 
-    if (usealpha) {
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
-          d1 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
-          d2 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
-          d3 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
-          d4 == 3 ? 0 : 0xff;
-    }
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
+        usealpha && d1 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
+        usealpha && d2 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
+        usealpha && d3 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
+        usealpha && d4 == 3 ? 0 : 0xff;
   }
 }
 
-- 
2.43.0


From 76840f9dbe60dcae305118fd13d73c4e5297073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 56/98] fix: BC1 blocks in three color mode were decoded with
 four colors

---
 formats/BlockDecoder.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 42ac346..c348b1d 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -19,11 +19,14 @@
 #include "BlockDecoder.h"
 
 inline void _DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
-                            uint32 width, const uint32 pixeloffset = 3) {
+                            uint32 width, const uint32 pixeloffset = 3,
+                            const bool threeColors = false) {
   Vector color1, color2;
   DecodeRGB565Block(data, color1);
+  const uint16 &cl1 = reinterpret_cast<const uint16 &>(*data);
   data += 2;
   DecodeRGB565Block(data, color2);
+  const uint16 &cl2 = reinterpret_cast<const uint16 &>(*data);
   data += 2;
   h *= 4;
   w *= 4;
@@ -38,6 +41,11 @@ inline void _DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
           .Convert<uint8>(),
   };
 
+  if (threeColors && cl1 <= cl2) {
+    colors[2] = ((color1 + color2) * 127.5f).Convert<uint8>();
+    colors[3] = UCVector(0, 0, 0);
+  }
+
   for (int row = 0; row < 4; row++) {
     reinterpret_cast<UCVector &>(
         *(obuffer + ((h + row) * width + w) * pixeloffset)) = colors[*data & 3];
@@ -152,7 +160,7 @@ inline void DecodeBC2Block(const char *data, char *obuffer, uint32 w, uint32 h,
 
 inline void DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
                            uint32 width) {
-  _DecodeBC1Block(data, obuffer, w, h, width);
+  _DecodeBC1Block(data, obuffer, w, h, width, 3, true);
 }
 
 inline void _DecodeBC4Block(const char *data, char *obuffer, uint32 w, uint32 h,
-- 
2.43.0


From 8fefc6a40a92d324f43897267ffa8d5440027a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 57/98] fix: ComputeBC5Blue converted values above 127 to char
 (undefined)

---
 formats/BlockDecoder.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/BlockDecoder.h b/formats/BlockDecoder.h
index efb26bf..c54e0c1 100644
--- a/formats/BlockDecoder.h
+++ b/formats/BlockDecoder.h
@@ -59,6 +59,7 @@ inline void ComputeBC5Blue(char *buffer, uint32 size) {
 
     zcomp = sqrtf(1.0f - zcomp);
 
-    *(buffer + p) = static_cast<char>((zcomp + 1.f) * SCHAR_MAX);
+    *(buffer + p) =
+        static_cast<char>(static_cast<uint8>((zcomp + 1.f) * SCHAR_MAX));
   }
 }
-- 
2.43.0


From fb819f37e0adb3615a0f439486770ae3ce4e0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:18 +0000
Subject: [PATCH 58/98] fix: SIMD BC1 decoder treated color components above
 127 as negative

---
 formats/BlockDecoderSimd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/BlockDecoderSimd.hpp b/formats/BlockDecoderSimd.hpp
index adf52c8..09d0305 100644
--- a/formats/BlockDecoderSimd.hpp
+++ b/formats/BlockDecoderSimd.hpp
@@ -26,8 +26,8 @@ static inline void DecodeRGB565Blocks(const char *data, IVector4A16 &color0,
   const auto cl0 = cl00 * IVector4A16(0x8000000, 0x200000, 0x10000, 0);
   const auto cl1 = cl00 * IVector4A16(0x800, 0x20, 0x1, 0);
 
-  color0 = cl0 >> 24;
-  color1 = cl1 >> 24;
+  color0 = IVector4A16(_mm_srli_epi32(cl0._data, 24));
+  color1 = IVector4A16(_mm_srli_epi32(cl1._data, 24));
 }
 
 inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
-- 
2.43.0


From f763cc62a913e2b6e42eeeca8ad601a4140288b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 59/98] fix: Morton addresses of textures taller than wide or
 smaller than 16

---
 formats/addr_ps3.hpp | 61 ++++++++++----------------------------------
 1 file changed, 13 insertions(+), 48 deletions(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index a997629..19d6e71 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -19,11 +19,13 @@
 #include <cmath>
 #include <cstddef>
 
+// For power of two sizes up to 2^14
 struct MortonSettings {
   size_t width;
   size_t height;
-  size_t xmask[10]{};
-  size_t ymask[10]{};
+  // Bits of a coordinate to be shifted left by index
+  size_t xmask[15]{};
+  size_t ymask[15]{};
 
   MortonSettings(size_t width_, size_t height_)
       : width(width_), height(height_) {
@@ -31,9 +33,9 @@ struct MortonSettings {
     const size_t bitOffsetH = log2(height);
     const size_t minBits = bitOffsetW > bitOffsetH ? bitOffsetH : bitOffsetW;
 
-    for (size_t b = 4; b < minBits; b++) {
-      xmask[b - 4] = size_t(1) << b;
-      ymask[b - 4] = size_t(1) << b;
+    for (size_t b = 0; b < minBits; b++) {
+      xmask[b] = size_t(1) << b;
+      ymask[b + 1] = size_t(1) << b;
     }
 
     if (bitOffsetW != bitOffsetH) {
@@ -42,56 +44,19 @@ struct MortonSettings {
       const size_t mask = maskH ^ maskW;
 
       if (bitOffsetW > bitOffsetH) {
-        xmask[bitOffsetH - 4] = mask;
+        xmask[bitOffsetH] |= mask;
       } else {
-        ymask[bitOffsetW - 4] = mask;
+        ymask[bitOffsetW] |= mask;
       }
     }
   }
 };
 
-size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
-  const size_t x0 = x & 1;
-  const size_t x1 = (x & 2) << 1;
-  const size_t x2 = (x & 4) << 2;
-  const size_t x3 = (x & 8) << 3;
-  const size_t x4 = (x & settings.xmask[0]) << 4;
-  const size_t x5 = (x & settings.xmask[1]) << 5;
-  const size_t x6 = (x & settings.xmask[2]) << 6;
-  const size_t x7 = (x & settings.xmask[3]) << 7;
+inline size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
+  size_t retval = 0;
 
-  const size_t y0 = (y & 1) << 1;
-  const size_t y1 = (y & 2) << 2;
-  const size_t y2 = (y & 4) << 3;
-  const size_t y3 = (y & 8) << 4;
-  const size_t y4 = (y & settings.ymask[0]) << 5;
-  const size_t y5 = (y & settings.ymask[1]) << 6;
-  const size_t y6 = (y & settings.ymask[2]) << 7;
-  const size_t y7 = (y & settings.ymask[3]) << 8;
-
-  size_t retval = x0 | x1 | x2 | x3 | x4 | x5 | x6 | x7 | y0 | y1 | y2 | y3 |
-                  y4 | y5 | y6 | y7;
-
-  if (settings.xmask[4] || settings.ymask[4]) {
-    const size_t x8 = (x & settings.xmask[4]) << 8;
-    const size_t x9 = (x & settings.xmask[5]) << 9;
-    const size_t x10 = (x & settings.xmask[6]) << 10;
-
-    const size_t y8 = (y & settings.ymask[4]) << 9;
-    const size_t y9 = (y & settings.ymask[5]) << 10;
-    const size_t y10 = (y & settings.ymask[6]) << 11;
-    retval |= x8 | x9 | x10 | y8 | y9 | y10;
-
-    if (settings.xmask[7] || settings.ymask[7]) {
-      const size_t x11 = (x & settings.xmask[7]) << 11;
-      const size_t x12 = (x & settings.xmask[8]) << 12;
-      const size_t x13 = (x & settings.xmask[9]) << 13;
-
-      const size_t y11 = (y & settings.ymask[7]) << 12;
-      const size_t y12 = (y & settings.ymask[8]) << 13;
-      const size_t y13 = (y & settings.ymask[9]) << 14;
-      retval |= x11 | x12 | x13 | y11 | y12 | y13;
-    }
+  for (size_t b = 0; b < 15; b++) {
+    retval |= ((x & settings.xmask[b]) | (y & settings.ymask[b])) << b;
   }
 
   return retval;
-- 
2.43.0


From 6bb57c053f71c723dd28bfb91c8ebdac25623a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:01 +0000
Subject: [PATCH 60/98] fix: DXGI_FORMAT_P208, V208 and V408 had wrong values

---
 formats/DDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 13ef396..a827cfa 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -137,10 +137,10 @@ enum DXGI_FORMAT : uint32 {
   DXGI_FORMAT_P8,
   DXGI_FORMAT_A8P8,
   DXGI_FORMAT_B4G4R4A4_UNORM,
-  DXGI_FORMAT_P208,
+  DXGI_FORMAT_P208 = 130,
   DXGI_FORMAT_V208,
   DXGI_FORMAT_V408,
-  DXGI_FORMAT_FORCE_UINT
+  DXGI_FORMAT_FORCE_UINT = 0xffffffff
 };
 
 static constexpr bool IsBC(DXGI_FORMAT fmt) {
-- 
2.43.0


From 8b3a9211aa64136f74729bf4962c3e7e227ad682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:03 +0000
Subject: [PATCH 61/98] fix: fourCC of R8G8_B8G8 is RGBG

---
 formats/DDS.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index a827cfa..5c2fda0 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -311,7 +311,7 @@ static constexpr DDS_PixelFormat DDSFormat_BC4S(CompileFourCC("BC4S"), 4);
 static constexpr DDS_PixelFormat DDSFormat_BC5U(CompileFourCC("BC5U"), 8);
 static constexpr DDS_PixelFormat DDSFormat_BC5S(CompileFourCC("BC5S"), 8);
 
-static constexpr DDS_PixelFormat DDSFormat_R8G8_B8G8(CompileFourCC("RBGB"), 32);
+static constexpr DDS_PixelFormat DDSFormat_R8G8_B8G8(CompileFourCC("RGBG"), 32);
 static constexpr DDS_PixelFormat DDSFormat_G8R8_G8B8(CompileFourCC("GRGB"), 32);
 static constexpr DDS_PixelFormat DDSFormat_UYVY(CompileFourCC("UYVY"), 32);
 static constexpr DDS_PixelFormat DDSFormat_YUY2(CompileFourCC("YUY2"), 32);
@@ -427,7 +427,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         break;
       case 112:
       case 114:
-      case CompileFourCC("RBGB"):
+      case CompileFourCC("RGBG"):
       case CompileFourCC("GRGB"):
       case CompileFourCC("YUY2"):
         bpp = 32;
@@ -590,7 +590,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     case CompileFourCC("BC5S"):
       dxgiFormat = DXGI_FORMAT_BC5_SNORM;
       break;
-    case CompileFourCC("RBGB"):
+    case CompileFourCC("RGBG"):
       dxgiFormat = DXGI_FORMAT_R8G8_B8G8_UNORM;
       break;
     case CompileFourCC("GRGB"):
-- 
2.43.0


From 311c0cdb95fd598b117442f96e5145c62f180660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 62/98] fix: ComputeBPP read beyond the table for unknown
 formats

---
 formats/DDS.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 5c2fda0..781e333 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -413,7 +413,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     DDS_PixelFormat &tformat = static_cast<DDS_PixelFormat &>(*this);
 
     if (tformat == DDSFormat_DX10) {
-      bpp = _bpps[dxgiFormat];
+      bpp = dxgiFormat < sizeof(_bpps) / sizeof(_bpps[0]) ? _bpps[dxgiFormat] : 0;
     } else {
       switch (fourCC) {
       case 36:
-- 
2.43.0


From c784a73d78eed0a9dd1f376573887bc6c3da304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 63/98] fix: ComputeBufferSize of large, small and block
 compressed textures

---
 formats/DDS.hpp | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 781e333..9eac628 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -467,32 +467,17 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       return 0;
 
     uint32 _mipCount = mipMapCount ? mipMapCount : 1;
+
+    if (_mipCount > Mips::maxMips)
+      _mipCount = Mips::maxMips;
+
     uint32 _width = width;
     uint32 _height = height;
     uint32 fullBuffer = 0;
     bool useBlockCompression = false;
 
     if (dxgiFormat) {
-      switch (dxgiFormat) {
-      case DXGI_FORMAT_BC1_UNORM:
-      case DXGI_FORMAT_BC1_UNORM_SRGB:
-      case DXGI_FORMAT_BC2_UNORM:
-      case DXGI_FORMAT_BC2_UNORM_SRGB:
-      case DXGI_FORMAT_BC3_UNORM:
-      case DXGI_FORMAT_BC3_UNORM_SRGB:
-      case DXGI_FORMAT_BC4_UNORM:
-      case DXGI_FORMAT_BC4_SNORM:
-      case DXGI_FORMAT_BC5_UNORM:
-      case DXGI_FORMAT_BC5_SNORM:
-      case DXGI_FORMAT_BC6H_UF16:
-      case DXGI_FORMAT_BC6H_SF16:
-      case DXGI_FORMAT_BC7_UNORM:
-      case DXGI_FORMAT_BC7_UNORM_SRGB:
-        useBlockCompression = true;
-        break;
-      default:
-        break;
-      }
+      useBlockCompression = IsBC(dxgiFormat);
     } else {
       switch (fourCC) {
       case CompileFourCC("DXT1"):
@@ -514,18 +499,18 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     }
 
     for (uint32 m = 0; m < _mipCount; m++) {
-      uint32 __width = _width, __height = _height;
+      uint64 __width = _width, __height = _height;
 
-      if (useBlockCompression && (__width * __height < 16)) {
-        __width = 4;
-        __height = 4;
+      if (useBlockCompression) {
+        __width = (__width + 3) & ~uint64(3);
+        __height = (__height + 3) & ~uint64(3);
       }
 
-      dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
+      dOut.sizes[m] = uint32(((__width * __height * bpp) + 7) / 8);
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
-      _width /= 2;
-      _height /= 2;
+      _width = _width > 1 ? _width / 2 : 1;
+      _height = _height > 1 ? _height / 2 : 1;
     }
 
     return fullBuffer;
-- 
2.43.0


From 12b89e79adf73bca651f0555bcdbc81b1420baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 64/98] fix: WAVEGenericHeader::Next did not skip the chunk
 header

---
 formats/WAVE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/WAVE.hpp b/formats/WAVE.hpp
index 06e1f64..cf8f932 100644
--- a/formats/WAVE.hpp
+++ b/formats/WAVE.hpp
@@ -26,7 +26,7 @@ struct WAVEGenericHeader {
 
   WAVEGenericHeader *Next() {
     return reinterpret_cast<WAVEGenericHeader *>(
-        reinterpret_cast<char *>(this) + chunkSize);
+        reinterpret_cast<char *>(this + 1) + chunkSize);
   }
 };
 
-- 
2.43.0


From abe95e64c1c59d47e54a2faf086dcec533a52998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 65/98] fix: reader of a moved ZIPVFSFile pointed to the old
 buffer

---
 datas/zip_vfs.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index f8ebbae..2d13ed7 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -28,6 +28,17 @@ struct ZIPVFSFile {
   operator BinReaderRef() const { return reader; }
 
   ZIPVFSFile(std::string &&str) : buffer(str), reader(buffer){};
+  ZIPVFSFile(ZIPVFSFile &&other)
+      : buffer(std::move(other.buffer)), reader(buffer) {
+    reader.SwapEndian(other.reader.SwappedEndian());
+  }
+
+  ZIPVFSFile &operator=(ZIPVFSFile &&other) {
+    buffer = std::move(other.buffer);
+    reader = BinReaderRef(buffer);
+    reader.SwapEndian(other.reader.SwappedEndian());
+    return *this;
+  }
 };
 
 class ZIPVFS : std::map<std::string, std::pair<size_t, size_t>> {
-- 
2.43.0


From 812717f4991b872f2413f24c5f42fd9c89c64b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:21 +0000
Subject: [PATCH 66/98] fix: ZIPVFS did not skip extensible data of ZIP64
 directories

---
 datas/zip_vfs.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 2d13ed7..5d8ca73 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -127,6 +127,13 @@ private:
     case ZIP64CentralDir::ID: {
       ZIP64CentralDir hdr;
       rd.Read(hdr);
+
+      // size of the fixed part without id and dirRecord
+      if (hdr.dirRecord < 44) {
+        throw std::runtime_error("ZIP64 central directory is too small!");
+      }
+
+      rd.Seek(rd.Tell() + hdr.dirRecord - 44);
       break;
     }
 
-- 
2.43.0


From af83b9043ab744d4d963ec3e59bd4477b2bfda58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 67/98] fix: ZIPVFS could not skip files of 2 GiB and more

---
 datas/zip_vfs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 5d8ca73..0f00e35 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -105,7 +105,7 @@ private:
         rd.ReadContainer(path, hdr.fileNameSize);
         rd.Skip(hdr.extraFieldSize);
         emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
-        rd.Skip(hdr.compressedSize);
+        rd.Seek(rd.Tell() + hdr.compressedSize);
       }();
       break;
     }
@@ -153,7 +153,7 @@ private:
     case ZIPExtraData::ID: {
       ZIPExtraData hdr;
       rd.Read(hdr);
-      rd.Skip(hdr.dataSize);
+      rd.Seek(rd.Tell() + hdr.dataSize);
       break;
     }
 
-- 
2.43.0


From 8eeb67f2893bdd4c8687facc4511c559aab1f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:39 +0000
Subject: [PATCH 68/98] fix: RunThreadedQueue never returned when the number of
 processors is unknown

---
 datas/multi_thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/multi_thread.hpp b/datas/multi_thread.hpp
index b31be1a..2b92c78 100644
--- a/datas/multi_thread.hpp
+++ b/datas/multi_thread.hpp
@@ -23,7 +23,9 @@
 #include <thread>
 
 template <class lmBody> void RunThreadedQueue(size_t numTasks, lmBody &&fc) {
-  const size_t numHWThreads = std::thread::hardware_concurrency();
+  // hardware_concurrency is 0 when it is not computable
+  const size_t numHWThreads =
+      std::max(std::thread::hardware_concurrency(), 1u);
   const size_t numThreads = std::min(numHWThreads, numTasks);
   size_t curTask = 0;
   using future_type = std::future<decltype(fc(size_t()))>;
-- 
2.43.0


From a8e2c005937bf78f1677ad90870e047b8fb43e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 69/98] fix: FlushAll passed text without terminator and stuck
 after a failed output

---
 datas/master_printer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index 0a06803..b9a6e60 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -59,6 +59,8 @@ void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
 }
 
 void MasterPrinterThread::FlushAll() {
+  _masterstream.clear();
+
   const size_t buffsize = static_cast<size_t>(_masterstream.tellp()) + 1;
 
   _masterstream.seekp(0);
@@ -66,6 +68,7 @@ void MasterPrinterThread::FlushAll() {
   char *tempOut = static_cast<char *>(malloc(buffsize));
 
   _masterstream.read(tempOut, buffsize);
+  tempOut[buffsize - 1] = 0;
 
   if (buffsize > static_cast<size_t>(maximumStreamSize))
     _masterstream.str("");
-- 
2.43.0


From 2a38e9bfdc9c25f990509da72b20130e8810805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 70/98] fix: printer functions were read and changed without
 the lock of the printer

---
 datas/internal/master_printer_ix.inl | 4 ++++
 datas/master_printer.cpp             | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/datas/internal/master_printer_ix.inl b/datas/internal/master_printer_ix.inl
index 1f480a7..b450b6f 100644
--- a/datas/internal/master_printer_ix.inl
+++ b/datas/internal/master_printer_ix.inl
@@ -27,6 +27,8 @@ template <class _Func> void RestoreConsoleTextColor(_Func fc) {
 }
 
 void SetConsoleTextColor(int red, int green, int blue) {
+  std::lock_guard<std::recursive_mutex> guard(__MasterPrinter._mutexPrint);
+
   for (auto &f : __MasterPrinter.functions) {
     if (!f.useColor)
       continue;
@@ -36,6 +38,8 @@ void SetConsoleTextColor(int red, int green, int blue) {
 }
 
 void RestoreConsoleTextColor() {
+  std::lock_guard<std::recursive_mutex> guard(__MasterPrinter._mutexPrint);
+
   for (auto &f : __MasterPrinter.functions) {
     if (!f.useColor)
       continue;
diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index b9a6e60..344f370 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -40,7 +40,7 @@ static struct MasterPrinter {
   };
   std::vector<FuncType> functions;
   std::vector<bool> functionUseColor;
-  std::mutex _mutexPrint;
+  std::recursive_mutex _mutexPrint;
   bool printThreadID = false;
   consoleColorAttrFlags consoleColorAttr;
 } __MasterPrinter;
@@ -52,6 +52,8 @@ static struct MasterPrinter {
 #endif
 
 void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
+  std::lock_guard<std::recursive_mutex> guard(__MasterPrinter._mutexPrint);
+
   for (auto &c : __MasterPrinter.functions)
     if (c.func == func)
       return;
@@ -76,7 +78,7 @@ void MasterPrinterThread::FlushAll() {
   _masterstream.clear();
   _masterstream.seekg(0);
 
-  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
+  std::lock_guard<std::recursive_mutex> guard(__MasterPrinter._mutexPrint);
 
   for (auto &fc : __MasterPrinter.functions) {
     if (__MasterPrinter.printThreadID) {
@@ -121,5 +123,6 @@ void MasterPrinterThread::operator>>(int endWay) {
 }
 
 void MasterPrinterThread::PrintThreadID(bool yn) {
+  std::lock_guard<std::recursive_mutex> guard(__MasterPrinter._mutexPrint);
   __MasterPrinter.printThreadID = yn;
 }
-- 
2.43.0


From 8119e9379acd724ab92e55dbfa1eeb9919c5810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 71/98] fix: DecompileFourCC read beyond the magic and
 classified negative characters

---
 datas/except.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/except.hpp b/datas/except.hpp
index f2d5ce6..74f29db 100644
--- a/datas/except.hpp
+++ b/datas/except.hpp
@@ -46,12 +46,14 @@ class InvalidHeaderError : public std::runtime_error {
 public:
   static std::string DecompileFourCC(size_t magic, size_t size) {
     const char *rMagic = reinterpret_cast<const char *>(&magic);
+    const size_t maxSize = size < sizeof(magic) ? size : sizeof(magic);
+    const void *magicEnd = memchr(rMagic, 0, maxSize);
     const size_t capSize =
-        std::min(size, es::string_view::traits_type::length(rMagic));
+        magicEnd ? static_cast<const char *>(magicEnd) - rMagic : maxSize;
     bool isAlNum = true;
 
     for (size_t c = 0; c < capSize; c++) {
-      if (!isalnum(rMagic[c])) {
+      if (!isalnum(static_cast<unsigned char>(rMagic[c]))) {
         isAlNum = false;
         break;
       }
-- 
2.43.0


From 5037abcfd0e9f8f0376c9e15fce4ef55a1d47adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:57 +0000
Subject: [PATCH 72/98] fix: exceptions of missing overrides lost their type
 and message, ModifyError was no std::exception

---
 uni/internal/exception.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/uni/internal/exception.hpp b/uni/internal/exception.hpp
index 914921d..92013b3 100644
--- a/uni/internal/exception.hpp
+++ b/uni/internal/exception.hpp
@@ -17,14 +17,15 @@
 
 #pragma once
 #include <stdexcept>
+#include <string>
 
 namespace _uni_ {
 
-inline std::exception ThrowVoidCall(bool logical) {
+[[noreturn]] inline std::exception ThrowVoidCall(bool logical) {
   if (logical) {
-    return std::logic_error("Unhandled call!");
+    throw std::logic_error("Unhandled call!");
   } else {
-    return std::runtime_error("Unsupported call!");
+    throw std::runtime_error("Unsupported call!");
   }
 }
 template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
@@ -33,16 +34,16 @@ template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
 } // namespace _uni_
 
 namespace uni {
-class ModifyError : std::runtime_error {
+class ModifyError : public std::runtime_error {
   using parent = std::runtime_error;
 
 public:
   explicit ModifyError(const std::string &modifyName)
       : parent(std::string("Setting ") + modifyName +
-               "is forbidden for this class!") {}
+               " is forbidden for this class!") {}
 
   explicit ModifyError(const char *modifyName)
       : parent(std::string("Setting ") + modifyName +
-               "is forbidden for this class!") {}
+               " is forbidden for this class!") {}
 };
 } // namespace uni
-- 
2.43.0


From 5418e6acc8b8336aa677c0546e5ff91f9a71e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 73/98] fix: ToUTF1632 made surrogates of characters where
 wchar_t has 4 bytes

---
 datas/unicode.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/datas/unicode.hpp b/datas/unicode.hpp
index c7d6fac..c55a5d9 100644
--- a/datas/unicode.hpp
+++ b/datas/unicode.hpp
@@ -70,6 +70,18 @@ template <typename _Ty> using utf8cvt = _utf8cvt<_Ty, sizeof(_Ty)>;
 
 } // namespace _es
 
+namespace _es {
+template <class _Ty, size_t _size> struct _widecvt {
+  using type = std::codecvt_utf8<_Ty>;
+};
+
+template <class _Ty> struct _widecvt<_Ty, 2> {
+  using type = std::codecvt_utf8_utf16<_Ty>;
+};
+
+using widecvt = _widecvt<wchar_t, sizeof(wchar_t)>::type;
+} // namespace _es
+
 namespace es {
 template <class C> std::string ToUTF8(const C *input) {
   return _es::utf8cvt<C>::Cvt(input);
@@ -80,12 +92,12 @@ template <class C> std::string ToUTF8(const std::basic_string<C> &input) {
 }
 
 inline std::wstring ToUTF1632(const char *input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::widecvt> converter;
   return converter.from_bytes(input);
 }
 
 inline std::wstring ToUTF1632(const std::string &input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::widecvt> converter;
   return converter.from_bytes(input);
 }
 }; // namespace es
-- 
2.43.0


From da65919408f08d0f0d1132c6a2509144beb5cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:23 +0000
Subject: [PATCH 74/98] fix: UPrintf of UNICODE builds used its text as a
 format

---
 datas/tchar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/tchar.hpp b/datas/tchar.hpp
index bcfed18..21bbac3 100644
--- a/datas/tchar.hpp
+++ b/datas/tchar.hpp
@@ -62,7 +62,7 @@ inline wstring to_wstring(const wchar_t *type) { return type; }
 template <typename T> TSTRING ToTSTRING(const T &type) {
   return std::to_wstring(type);
 }
-static inline void UPrintf(const char *data) { wprintf(es::ToUTF1632(data).c_str()); }
+static inline void UPrintf(const char *data) { wprintf(L"%ls", es::ToUTF1632(data).c_str()); }
 #else
 template <typename T> TSTRING ToTSTRING(const T &type) {
   return std::to_string(type);
-- 
2.43.0


From 7548d301b1a4c69e48dff52302e0e8d48a9f6ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 75/98] fix: uni/model.hpp declares esMatrix44 so that it can
 be included on its own

---
 uni/model.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uni/model.hpp b/uni/model.hpp
index 5ed1018..e020dcf 100644
--- a/uni/model.hpp
+++ b/uni/model.hpp
@@ -19,6 +19,8 @@
 #include "format.hpp"
 #include "list.hpp"
 
+class esMatrix44;
+
 namespace uni {
 struct RTSValue;
 struct BBOX {
-- 
2.43.0


From 92faf0b12e7470750b298c62ce2f865b6741d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 76/98] fix: time formatting and log files of wide character
 builds outside Windows

---
 datas/settings_manager.hpp | 4 ++++
 datas/tchar.hpp            | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 04442ee..4c03175 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -45,7 +45,11 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
               &timeStruct);
     logName.append(std::to_string(dateBuffer));
     logName.append(".txt");
+#if defined(UNICODE) && defined(_MSC_VER)
     GetLogger().open(ToTSTRING(logName), std::ios::out);
+#else
+    GetLogger().open(logName, std::ios::out);
+#endif
     printer.AddPrinterFunction(SettingsManager::printf, false);
 
     _tcsftime(dateBuffer, dateBufferSize, _T("%c %Z"), &timeStruct);
diff --git a/datas/tchar.hpp b/datas/tchar.hpp
index 21bbac3..4bb732e 100644
--- a/datas/tchar.hpp
+++ b/datas/tchar.hpp
@@ -30,9 +30,9 @@ typedef wchar_t TCHAR;
 typedef char TCHAR;
 #define __T(x) x
 #define _tmain main
+#define _tcsftime strftime
 #endif
 #define _T(x) __T(x)
-#define _tcsftime strftime
 #endif
 
 template <class T>
-- 
2.43.0


From 5d1f7cec4f004b16caf86a8d16f29ee78f019bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:09 +0000
Subject: [PATCH 77/98] fix: settings help of classes without descriptions

---
 datas/settings_manager.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 4c03175..c91e5ce 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -84,11 +84,10 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
 
     for (size_t i = 0; i < ref->nTypes; i++) {
       es::string_view elName = ref->typeNames[i];
-      auto elDesc = ref->typeDescs[i];
       fillIndent() << elName << std::endl;
 
-      if (!elDesc.part1.empty()) {
-        fillIndent(1) << elDesc.part1 << std::endl;
+      if (ref->typeDescs && !ref->typeDescs[i].part1.empty()) {
+        fillIndent(1) << ref->typeDescs[i].part1 << std::endl;
       }
 
       auto fl = ref->types[i];
-- 
2.43.0


From ce9e3e6bac841341e585a8484b0f6acfa7ee33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:36 +0000
Subject: [PATCH 78/98] fix: include guard of BlockDecoderSimd.hpp

---
 formats/BlockDecoderSimd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/BlockDecoderSimd.hpp b/formats/BlockDecoderSimd.hpp
index 09d0305..e61ddc9 100644
--- a/formats/BlockDecoderSimd.hpp
+++ b/formats/BlockDecoderSimd.hpp
@@ -16,6 +16,7 @@
     limitations under the License.
 */
 
+#pragma once
 #include "datas/vectors_simd.hpp"
 #include <cstring>
 
-- 
2.43.0


From 8c83476a599847ef2a758a3d7f6292d5b9c573bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 79/98] fix: settings help of classes without names

---
 datas/settings_manager.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index c91e5ce..5fa6c12 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -83,7 +83,12 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
     };
 
     for (size_t i = 0; i < ref->nTypes; i++) {
-      es::string_view elName = ref->typeNames[i];
+      es::string_view elName;
+
+      if (ref->typeNames) {
+        elName = ref->typeNames[i];
+      }
+
       fillIndent() << elName << std::endl;
 
       if (ref->typeDescs && !ref->typeDescs[i].part1.empty()) {
-- 
2.43.0


From dade861ed2df528579450cf2d1fb7a4e07dc8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:44 +0000
Subject: [PATCH 80/98] fix: XML names of array items in classes without names

---
 datas/reflector_xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 2ffaea4..0abc0e4 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -97,7 +97,7 @@ static pugi::xml_node MakeNode(const Reflector &ri, const reflectorStatic *stat,
   else {
     className.resize(15);
     const auto cHash = stat->classHash.raw();
-    snprintf(&className[0], 15, "h:%X", cHash);
+    className.resize(snprintf(&className[0], 15, "h:%X", cHash));
   }
 
   return node.append_child(className.c_str());
@@ -112,7 +112,7 @@ static std::string GetName(const Reflector &ri, const reflectorStatic *stat,
   } else {
     varName.resize(15);
     const auto cHash = cType.valueNameHash.raw();
-    snprintf(&varName[0], 15, "h:%X", cHash);
+    varName.resize(snprintf(&varName[0], 15, "h:%X", cHash));
   }
 
   return varName;
-- 
2.43.0


From 5f25d579255744ac23c368c2953b5703125fc505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:47 +0000
Subject: [PATCH 81/98] fix: XML markup within saved strings

---
 datas/reflector_xml.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 0abc0e4..95b29d4 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -150,7 +150,7 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
       }
     } else {
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      cNode.text().set(str.c_str());
     }
   }
 
@@ -259,14 +259,14 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
       default: {
         pugi::xml_node cNode = thisNode.append_child(varName.c_str());
         std::string str = ri.GetReflectedValue(t);
-        cNode.append_buffer(str.c_str(), str.size());
+        cNode.text().set(str.c_str());
         break;
       }
       }
     } else {
       pugi::xml_node cNode = thisNode.append_child(varName.c_str());
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      cNode.text().set(str.c_str());
     }
   }
 
-- 
2.43.0


From 1373fecb773bebc4abc7dd4b664e19e4171d246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 82/98] fix: loading of XML elements with attributes and
 unknown names

---
 datas/reflector_xml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 95b29d4..766b0e8 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -348,6 +348,10 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
     auto refType = rif.GetReflectedType(node.hash);
 
+    if (!refType) {
+      continue;
+    }
+
     auto DoVector = [&] {
       for (auto t : a.attributes()) {
         size_t element = -1;
-- 
2.43.0


From 9b9e7bf966bea86ef72b889c54894604d22a2dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 83/98] fix: XML of classes that are not registered and items
 that do not exist

---
 datas/reflector_xml.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 766b0e8..66b5f93 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -124,6 +124,11 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
   auto stat =
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance())
           .Refl();
+
+  if (!stat) {
+    return {};
+  }
+
   pugi::xml_node thisNode = asNewNode ? MakeNode(ri, stat, node) : node;
 
   for (size_t t = 0; t < stat->nTypes; t++) {
@@ -170,6 +175,11 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
   auto stat =
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance())
           .Refl();
+
+  if (!stat) {
+    return {};
+  }
+
   pugi::xml_node thisNode =
       opts[Flags_ClassNode] ? MakeNode(ri, stat, node) : node;
 
@@ -279,6 +289,11 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
   const reflectorStatic *stat =
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance())
           .Refl();
+
+  if (!stat) {
+    return {};
+  }
+
   pugi::xml_node thisNode;
   static constexpr size_t nan_ = -1;
   struct retval {
@@ -439,6 +454,11 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
   const reflectorStatic *stat =
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance())
           .Refl();
+
+  if (!stat) {
+    return {};
+  }
+
   pugi::xml_node thisNode;
 
   auto MakeHash = [](es::string_view name) -> JenHash {
-- 
2.43.0


From b801a84595ca5f5e672d52e9e45afbd8e52af0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 84/98] fix: XML array items with too short names

---
 datas/reflector_xml.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 66b5f93..92dee77 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -488,7 +488,13 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
     if (ri.IsReflectedSubClass(hash)) {
       if (ri.IsArray(hash)) {
         for (auto sc : a.children()) {
-          auto index = atoll(sc.name() + 2);
+          es::string_view itemName(sc.name());
+
+          if (itemName.size() < 2) {
+            continue;
+          }
+
+          auto index = atoll(itemName.data() + 2);
           auto rfInst = ri.GetReflectedSubClass(hash, index);
           ReflectorPureWrap subRefl(rfInst);
           ReflectorXMLUtil::Load(subRefl, sc);
-- 
2.43.0


From 6389522acd119ca495c7e212e119241d815b709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 85/98] fix: settings help of classes without a name

---
 datas/settings_manager.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 5fa6c12..f8ca51d 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -117,7 +117,12 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
 
   void GetHelp(std::ostream &str) {
     auto ref = GetReflectedClass<Base>();
-    str << ref->className << " settings." << std::endl;
+
+    if (ref->className) {
+      str << ref->className << ' ';
+    }
+
+    str << "settings." << std::endl;
     GetHelp(str, ref);
   }
 };
-- 
2.43.0


From 5b4e60ff02d9950688a8b3c48470aac474b4794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 86/98] fix: Python objects of uni are freed when they are
 released

---
 uni/python/pylist.hpp     |  5 ++++-
 uni/python/pymotion.inl   |  8 ++++++--
 uni/python/pyskeleton.inl | 10 ++++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index e757a5a..01a44b5 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -84,7 +84,10 @@ template <class Info> struct List {
     return &typeObject;
   }
 
-  static void Dealloc(List *self) { auto t0 = std::move(self->cList); }
+  static void Dealloc(List *self) {
+    { auto t0 = std::move(self->cList); }
+    Py_TYPE(self)->tp_free(self);
+  }
 
   static size_t Len(List *self) { return self->cList->Size(); }
 
diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 02dc731..e3cf504 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -150,7 +150,8 @@ static PyTypeObject motionTrackType = {
 PyTypeObject *MotionTrack::GetType() { return &motionTrackType; }
 
 void MotionTrack::Dealloc(MotionTrack *self) {
-  auto t0 = std::move(self->item);
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(self);
 }
 
 PyObject *MotionTrack::TrackType(MotionTrack *self) {
@@ -280,7 +281,10 @@ PyTypeObject *Motion::GetType() { return &motionType; }
 
 PyTypeObject *Motion::GetListType() { return MotionList::GetType(); }
 
-void Motion::Dealloc(Motion *self) { auto t0 = std::move(self->item); }
+void Motion::Dealloc(Motion *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(self);
+}
 
 PyObject *Motion::MotionType(Motion *self) {
   return PyLong_FromSize_t(self->item->MotionType());
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 8d09514..ca7c92d 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -114,7 +114,10 @@ static PyTypeObject boneType = {
 
 PyTypeObject *Bone::GetType() { return &boneType; }
 
-void Bone::Dealloc(Bone *self) { auto t0 = std::move(self->item); }
+void Bone::Dealloc(Bone *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(self);
+}
 
 PyObject *Bone::GetTMType(Bone *self) {
   return PyLong_FromLong(self->item->TMType());
@@ -218,7 +221,10 @@ static PyTypeObject skeletonType = {
 
 PyTypeObject *Skeleton::GetType() { return &skeletonType; }
 
-void Skeleton::Dealloc(Skeleton *self) { auto t0 = std::move(self->item); }
+void Skeleton::Dealloc(Skeleton *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(self);
+}
 
 PyObject *Skeleton::Name(Skeleton *self) {
   auto skName = self->item->Name();
-- 
2.43.0


From 0fc46eb2f0fb5c60b99ad178078018fc6393d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 87/98] fix: an iterator over a Python uni list is a new
 reference

---
 uni/python/pylist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index 01a44b5..c667547 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -105,6 +105,7 @@ template <class Info> struct List {
 
   static PyObject *Iter(List *self) {
     self->iterPos = 0;
+    Py_INCREF(self);
     return reinterpret_cast<PyObject *>(self);
   }
 
-- 
2.43.0


From 3593dc4f23fd66df12caac657b7ee0c8bae3a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:56 +0000
Subject: [PATCH 88/98] fix: None returned to Python is a new reference

---
 uni/python/pymotion.inl   | 2 ++
 uni/python/pyskeleton.inl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index e3cf504..25647fe 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -216,6 +216,8 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
     break;
   }
   default:
+    Py_DECREF(retList);
+    Py_INCREF(Py_None);
     return Py_None;
   }
 
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index ca7c92d..727540e 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -136,6 +136,7 @@ PyObject *Bone::GetTM(Bone *self) {
     return Py_BuildValue(rts);
   }
   default:
+    Py_INCREF(Py_None);
     return Py_None;
   }
 }
@@ -157,6 +158,7 @@ PyObject *Bone::GetParent(Bone *self) {
     rtVal->item = {bne, false};
     return reinterpret_cast<PyObject *>(rtVal);
   } else {
+    Py_INCREF(Py_None);
     return Py_None;
   }
 }
-- 
2.43.0


From ec6bdd03da72a19bfec41936321558df349ec92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:58 +0000
Subject: [PATCH 89/98] fix: Python items out of range are index errors

---
 datas/python/reflected_enum.hpp | 5 +++++
 uni/python/pylist.hpp           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/datas/python/reflected_enum.hpp b/datas/python/reflected_enum.hpp
index 8d87cda..0006c0b 100644
--- a/datas/python/reflected_enum.hpp
+++ b/datas/python/reflected_enum.hpp
@@ -93,6 +93,11 @@ template <class E, const char *const doc = nullptr> struct ReflectedEnumPy {
   }
 
   static PyObject *SubscriptRaw(size_t index) {
+    if (index >= value_type::NUM_ITEMS) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     auto eName = GetEnum()[index];
     return PyString_FromStringAndSize(eName.data(), eName.size());
   }
diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index c667547..af4b5a1 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -97,6 +97,11 @@ template <class Info> struct List {
   }
 
   PyObject *SubscriptRaw(size_t index) {
+    if (index >= cList->Size()) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     wrap_type *rtVal = reinterpret_cast<wrap_type *>(
         PyType_GenericAlloc(wrap_type::GetType(), 0));
     rtVal->item = cList->At(index);
-- 
2.43.0


From 962df8497afa72c12d398c919f1dac928216f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:00 +0000
Subject: [PATCH 90/98] fix: Python values that are no numbers are errors

---
 uni/python/pymotion.inl | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 25647fe..072adf4 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -174,6 +174,10 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
 
   for (auto &t : times) {
     t = static_cast<float>(PyFloat_AsDouble(*cObj++));
+
+    if (PyErr_Occurred()) {
+      return nullptr;
+    }
   }
 
   auto retList = PyList_New(times.size());
@@ -310,7 +314,13 @@ PyObject *Motion::FrameRate(Motion *self) {
 }
 
 int Motion::SetFrameRate(Motion *self, PyObject *var) {
-  self->sitem->FrameRate(PyLong_AsLong(var));
+  const auto frameRate = PyLong_AsLong(var);
+
+  if (PyErr_Occurred()) {
+    return -1;
+  }
+
+  self->sitem->FrameRate(frameRate);
   return 0;
 }
 
-- 
2.43.0


From f44dd85f6d4b091ab1eb35891965739cd58f9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 91/98] fix: Skeleton::GetListType is defined

---
 uni/python/pyskeleton.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 727540e..c6fec98 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -223,6 +223,8 @@ static PyTypeObject skeletonType = {
 
 PyTypeObject *Skeleton::GetType() { return &skeletonType; }
 
+PyTypeObject *Skeleton::GetListType() { return SkeletonList::GetType(); }
+
 void Skeleton::Dealloc(Skeleton *self) {
   { auto t0 = std::move(self->item); }
   Py_TYPE(self)->tp_free(self);
-- 
2.43.0


From c1c3c52cbcda4e405b5437daa0be5fc05f1fcea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:44 +0000
Subject: [PATCH 92/98] fix: std::to_string and std::to_wstring of vectors name
 the components and return wide strings

---
 datas/vectors_string.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/datas/vectors_string.hpp b/datas/vectors_string.hpp
index 7125d94..5def244 100644
--- a/datas/vectors_string.hpp
+++ b/datas/vectors_string.hpp
@@ -22,29 +22,29 @@
 
 namespace std {
 template <class C> string to_string(const t_Vector2<C> &type) {
-  return to_string(type.x) + ' ' + to_string(type.y);
+  return to_string(type.X) + ' ' + to_string(type.Y);
 }
 
 template <class C> string to_string(const t_Vector<C> &type) {
-  return to_string(type.x) + ' ' + to_string(type.y) + ' ' + to_string(type.z);
+  return to_string(type.X) + ' ' + to_string(type.Y) + ' ' + to_string(type.Z);
 }
 
 template <class C> string to_string(const t_Vector4_<C> &type) {
-  return to_string(type.x) + ' ' + to_string(type.y) + ' ' + to_string(type.z) +
-         ' ' + to_string(type.w);
+  return to_string(type.X) + ' ' + to_string(type.Y) + ' ' + to_string(type.Z) +
+         ' ' + to_string(type.W);
 }
 
-template <class C> string to_wstring(const t_Vector2<C> &type) {
-  return to_wstring(type.x) + L' ' + to_wstring(type.y);
+template <class C> wstring to_wstring(const t_Vector2<C> &type) {
+  return to_wstring(type.X) + L' ' + to_wstring(type.Y);
 }
 
-template <class C> string to_wstring(const t_Vector<C> &type) {
-  return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
-         to_wstring(type.z);
+template <class C> wstring to_wstring(const t_Vector<C> &type) {
+  return to_wstring(type.X) + L' ' + to_wstring(type.Y) + L' ' +
+         to_wstring(type.Z);
 }
 
-template <class C> string to_wstring(const t_Vector4_<C> &type) {
-  return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
-         to_wstring(type.z) + L' ' + to_wstring(type.w);
+template <class C> wstring to_wstring(const t_Vector4_<C> &type) {
+  return to_wstring(type.X) + L' ' + to_wstring(type.Y) + L' ' +
+         to_wstring(type.Z) + L' ' + to_wstring(type.W);
 }
 } // namespace std
-- 
2.43.0


From 48cfa25543e8ca5679b86dc9555cb8b18cebcfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 93/98] fix: VA_NARGS counts 87 and 88 arguments

---
 datas/macroLoop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/macroLoop.hpp b/datas/macroLoop.hpp
index 22e6b1f..23a5b99 100644
--- a/datas/macroLoop.hpp
+++ b/datas/macroLoop.hpp
@@ -20,7 +20,7 @@
 #pragma once
 #define VA_NARGS_IMPL(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14,_15,_16,_17,_18,_19,_20,_21,_22,_23,_24,_25,_26,_27,_28,_29,_30,_31,_32,_33,_34,_35,_36,_37,_38,_39,_40,_41,_42,_43,_44,_45,_46,_47,_48,_49,_50,_51,_52,_53,_54,_55,_56,_57,_58,_59,_60,_61,_62,_63,_64,_65,_66,_67,_68,_69,_70,_71,_72,_73,_74,_75,_76,_77,_78,_79,_80,_81,_82,_83,_84,_85,_86,_87,_88,_89, N, ...) N
 #define VA_NARGS_EVAL(x) x
-#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,87,88,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
+#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,88,87,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
 
 #define _LOOPER_CAT1(c1,c2) c1##c2
 #define _LOOPER_CAT2(c1,c2) _LOOPER_CAT1(c1, c2)
-- 
2.43.0


From 15ee2b0f89cb1208eb746595d9a6396b3842e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 94/98] fix: test macros take operands of any form and fail for
 unordered values

---
 datas/unit_testing.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/datas/unit_testing.hpp b/datas/unit_testing.hpp
index 708f678..5eb4425 100644
--- a/datas/unit_testing.hpp
+++ b/datas/unit_testing.hpp
@@ -86,40 +86,40 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_CHECK(val)                                                        \
-  if (!val) {                                                                  \
+  if (!(val)) {                                                                \
     _CHECK_FAILED_TMP(#val);                                                   \
     return 1;                                                                  \
   }
 
 #define TEST_EQUAL(val1, val2)                                                 \
-  if (val1 != val2) {                                                          \
+  if ((val1) != (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " != ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT(val1, val2)                                                    \
-  if (val1 <= val2) {                                                          \
+  if (!((val1) > (val2))) {                                                    \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " <= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_LT(val1, val2)                                                    \
-  if (val1 >= val2) {                                                          \
+  if (!((val1) < (val2))) {                                                    \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " >= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT_EQ(val1, val2)                                                 \
-  if (val1 < val2) {                                                           \
+  if (!((val1) >= (val2))) {                                                   \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " < ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
 
 #define TEST_LE_EQ(val1, val2)                                                 \
-  if (val1 > val2) {                                                           \
+  if (!((val1) <= (val2))) {                                                   \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " > ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
@@ -131,7 +131,7 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_NOT_EQUAL(val1, val2)                                             \
-  if (val1 == val2) {                                                          \
+  if ((val1) == (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " == ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
-- 
2.43.0


From 14d05f0d3fe84f5dafd7587e766076c7a54b1f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:35 +0000
Subject: [PATCH 95/98] fix: string_view copy and substr of an empty view or at
 its end threw

---
 datas/internal/string_view.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 4fb2ffa..78263c3 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -212,7 +212,7 @@ namespace es {
                                            size_type pos )
     const
   {
-    if(pos >= m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
+    if(pos > m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
 
     const size_type rcount = std::min(m_size - pos,count);
     std::copy( m_str + pos, m_str + pos + rcount, dest);
@@ -227,7 +227,7 @@ namespace es {
   {
     const size_type max_length = pos > m_size ? 0 : m_size - pos;
 
-    return pos < m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
+    return pos <= m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
   }
 
   //--------------------------------------------------------------------------
-- 
2.43.0


From 01ca2b169d3f05bccc0e5e3ab8d4af58613fe97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:11 +0000
Subject: [PATCH 96/98] fix: the A2B10G10R10 pixel format had no alpha mask

---
 formats/DDS.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 9eac628..b91b9ab 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -323,7 +323,7 @@ static constexpr DDS_PixelFormat DDSFormat_DX10(CompileFourCC("DX10"), 0);
 
 static constexpr DDS_PixelFormat DDSFormat_A2B10G10R10(
     {DDS_PixelFormat::PFFlags_RGB, DDS_PixelFormat::PFFlags_AlphaPixels}, 32,
-    0x000003ff, 0x000ffc00, 0x3ff00000, 0x00000000);
+    0x000003ff, 0x000ffc00, 0x3ff00000, 0xc0000000);
 static constexpr DDS_PixelFormat DDSFormat_A8R8G8B8(
     {DDS_PixelFormat::PFFlags_RGB, DDS_PixelFormat::PFFlags_AlphaPixels}, 32,
     0x00ff0000, 0x0000ff00, 0x000000ff, 0xff000000);
-- 
2.43.0


From c57671922af5aefd1c1346e5182e709dc13f622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:13 +0000
Subject: [PATCH 97/98] fix: moved file readers and writers kept using the
 stream of the moved object

---
 datas/binreader.hpp  | 7 ++++++-
 datas/binwritter.hpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/datas/binreader.hpp b/datas/binreader.hpp
index 3ef4984..37203e8 100644
--- a/datas/binreader.hpp
+++ b/datas/binreader.hpp
@@ -37,7 +37,12 @@ public:
   }
   BinReader(const char *filePath) { OpenFile(filePath); }
   BinReader(const BinReader &) = delete;
-  BinReader(BinReader &&) = default;
+  BinReader(BinReader &&other)
+      : BinReaderRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinReader &operator=(const BinReader &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
diff --git a/datas/binwritter.hpp b/datas/binwritter.hpp
index 155b74b..aae04ac 100644
--- a/datas/binwritter.hpp
+++ b/datas/binwritter.hpp
@@ -38,7 +38,12 @@ public:
   BinWritter(const char *filePath) { OpenFile(filePath); }
 
   BinWritter(const BinWritter &rd) = delete;
-  BinWritter(BinWritter &&) = default;
+  BinWritter(BinWritter &&other)
+      : BinWritterRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinWritter &operator=(const BinWritter &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
-- 
2.43.0


From 5224a919faa4ccdf020af30d67ec9cbb46ec1f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 98/98] fix: opening another file with an open file reader or
 writer failed

---
 datas/internal/bincore_file.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/internal/bincore_file.hpp b/datas/internal/bincore_file.hpp
index 3aaa921..73113dd 100644
--- a/datas/internal/bincore_file.hpp
+++ b/datas/internal/bincore_file.hpp
@@ -24,11 +24,12 @@ protected:
   std::fstream FileStream;
 
   void Close_() {
-    if (!FileStream.fail())
+    if (FileStream.is_open())
       FileStream.close();
   }
 
   bool Open_(const char *_fileName) {
+    Close_();
 #if defined(UNICODE) && defined(_MSC_VER)
     FileStream.open(es::ToUTF1632(_fileName), MODE);
 #else
@@ -39,6 +40,7 @@ protected:
   }
 
   bool Open_(const std::string &_fileName) {
+    Close_();
 #if defined(UNICODE) && defined(_MSC_VER)
     FileStream.open(es::ToUTF1632(_fileName), MODE);
 #else
-- 
2.43.0

