From d66068d603150886fdbb11ed5bb6cc6c696b5dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 01/23] fix: declare size_t in hash.hpp instead of relying on
 earlier includes

---
 include/zcm/hash.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zcm/hash.hpp b/include/zcm/hash.hpp
index 1ce7d36..9d7a10c 100644
--- a/include/zcm/hash.hpp
+++ b/include/zcm/hash.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <zcm/detail/vectorcall.hpp>
+#include <stddef.h>
 #include <functional>
 #include <zcm/vec4.hpp>
 #include <zcm/quat.hpp>
-- 
2.43.0


From e13b28124c6475d972781e33f57c228c8bade676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 02/23] fix: give -0.0f and 0.0f the same hash, they compare
 equal

---
 src/hash.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hash.cpp b/src/hash.cpp
index 4d9c34a..dcc9dfd 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -17,6 +17,8 @@
 static size_t float_hash(float f) noexcept
 {
     static_assert (sizeof(float) == sizeof(unsigned), "Float and unsigned must have same size!");
+    if (f == 0.0f)
+        f = 0.0f; // -0.0f == 0.0f, so both must have the same hash
     unsigned ui;
     std::memcpy(&ui, &f, sizeof(float));
     return zcm::hash(ui);
-- 
2.43.0


From 6fadc5bcd7eaa9b3c3e42810302eb46fa2caa138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 03/23] fix: hash(mat4) ignored the second and third columns

---
 src/hash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index dcc9dfd..97b9a93 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -75,7 +75,7 @@ size_t zcm::hash(const zcm::mat3 &m) noexcept
 
 size_t zcm::hash(const zcm::mat4 &m) noexcept
 {
-    return hash(m[0]) ^ hash(m[1]) ^ hash(m[1]) ^ hash(m[3]);
+    return hash(m[0]) ^ hash(m[1]) ^ hash(m[2]) ^ hash(m[3]);
 }
 
 size_t zcm::hash(const zcm::bvec2 &b) noexcept
-- 
2.43.0


From d722204ceeff61607db988d839508bf9ed931fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 04/23] fix: exp2 computed the natural exponential

---
 src/exponential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exponential.cpp b/src/exponential.cpp
index 06a6857..d6a8956 100644
--- a/src/exponential.cpp
+++ b/src/exponential.cpp
@@ -184,7 +184,7 @@ zcm::quat zcm_vectorcall zcm::exp(zcm::quat x) noexcept
 
 float zcm::exp2(float x) noexcept
 {
-    return expf(x);
+    return exp2f(x);
 }
 
 zcm::vec2 zcm::exp2(const zcm::vec2& x) noexcept
-- 
2.43.0


From 18eb65e03c21c53619ae5ee86995ad19a5ee21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 05/23] fix: distance2 of vec3 and vec4 returned the distance,
 not its square

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 5baab6f..832fa39 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -283,12 +283,12 @@ float zcm::distance2(const zcm::vec2 &first, const zcm::vec2 &second) noexcept
 
 float zcm::distance2(const zcm::vec3 &first, const zcm::vec3 &second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 float zcm_vectorcall zcm::distance2(zcm::vec4 first, zcm::vec4 second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 
-- 
2.43.0


From 099a05d2149dd2caf996f1cf431d031b6d589dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 06/23] fix: length of a negative scalar was negative

---
 src/geometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 832fa39..538d634 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -213,7 +213,7 @@ zcm::vec4 zcm_vectorcall zcm::refract(zcm::vec4 I, zcm::vec4 N, float eta) noexc
 
 float zcm::length(float first) noexcept
 {
-    return first;
+    return abs(first);
 }
 
 float zcm::length(const zcm::vec2& first) noexcept
-- 
2.43.0


From df69c78690472656a49ba63812d22c8ff68f971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 07/23] fix: decode_octahedral misplaced every direction of the
 lower hemisphere

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 538d634..8bbe0cd 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -327,8 +327,8 @@ zcm::vec3 zcm::decode_octahedral(zcm::vec2 e) noexcept
 {
     auto v = zcm::vec3(e.x, e.y, 1.0f - abs(e.x) - abs(e.y));
     if (v.z < 0.0f) {
-        v.x = 1.0f - abs(v.y) * signNotZero(v.x);
-        v.y = 1.0f - abs(v.x) * signNotZero(v.y);
+        v.x = (1.0f - abs(e.y)) * signNotZero(e.x);
+        v.y = (1.0f - abs(e.x)) * signNotZero(e.y);
     }
     return normalize(v);
 }
-- 
2.43.0


From 60ba0bc50ca7b08d49ddd6ddd1eb3460908adb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 08/23] fix: mat3(mat2) read a third column out of bounds

---
 src/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat3.cpp b/src/mat3.cpp
index 7d5b203..fc84f70 100644
--- a/src/mat3.cpp
+++ b/src/mat3.cpp
@@ -24,7 +24,7 @@ zcm::mat3::mat3(const zcm::mat2 &m2) noexcept
 {
     _columns[0] = vec3(m2[0].x, m2[0].y, 0.0f);
     _columns[1] = vec3(m2[1].x, m2[1].y, 0.0f);
-    _columns[2] = vec3(m2[2].x, m2[2].y, 1.0f);
+    _columns[2] = vec3(0.0f, 0.0f, 1.0f);
 }
 
 zcm::mat3::operator zcm::mat2() const noexcept
-- 
2.43.0


From 8861fd57969961c84c82d717a9245e63ccb3fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 09/23] fix: roundEven rounded to even integers only

---
 src/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index 17cb888..53420e9 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -353,7 +353,7 @@ zcm::vec4 zcm_vectorcall zcm::round(zcm::vec4 x) noexcept
 
 float zcm::roundEven(float x) noexcept
 {
-    return std::nearbyint(x * 0.5f) * 2.0f;
+    return std::nearbyint(x);
 }
 
 zcm::vec2 zcm::roundEven(const zcm::vec2& x) noexcept
-- 
2.43.0


From 37da8d0243e97393bb7fa4055a382169e070150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 10/23] fix: convertLinearToSRGB with a gamma applied the
 inverse transfer curve

---
 src/color_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 6498b69..7471047 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -13,7 +13,7 @@ zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
 {
 	auto ClampedColor = clamp(colorLinear, vec3{0}, vec3{1});
-	return mix(pow(ClampedColor, vec3(Gamma)) * 1.055f - 0.055f,
+	return mix(pow(ClampedColor, vec3(1.0f / Gamma)) * 1.055f - 0.055f,
 	           ClampedColor * 12.92f,
 	           lessThan(ClampedColor, vec3(0.0031308f)));
 }
-- 
2.43.0


From 16cbd1412f253b318e3aef22da75e47d8bcd982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 11/23] fix: color_space.cpp did not compile with
 ZCM_DISABLE_SWIZZLE

---
 src/color_space.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 7471047..6198cce 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -7,7 +7,7 @@
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 {
-	return {convertLinearToSRGB(ColorLinear.rgb, Gamma), ColorLinear.a};
+	return {convertLinearToSRGB(vec3(ColorLinear.r, ColorLinear.g, ColorLinear.b), Gamma), ColorLinear.a};
 }
 
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
@@ -29,7 +29,7 @@ zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear) noexcept
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 colorLinear) noexcept
 {
-	return {convertLinearToSRGB(colorLinear.rgb), colorLinear.a};
+	return {convertLinearToSRGB(vec3(colorLinear.r, colorLinear.g, colorLinear.b)), colorLinear.a};
 }
 
 
@@ -42,7 +42,7 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB, float Gamma) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB, float Gamma) noexcept
 {
-	return {convertSRGBToLinear(ColorSRGB.rgb, Gamma), ColorSRGB.a};
+	return {convertSRGBToLinear(vec3(ColorSRGB.r, ColorSRGB.g, ColorSRGB.b), Gamma), ColorSRGB.a};
 }
 
 zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
@@ -52,5 +52,5 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB) noexcept
 {
-    return {convertSRGBToLinear(ColorSRGB.rgb, 2.4f), ColorSRGB.a};
+    return {convertSRGBToLinear(vec3(ColorSRGB.r, ColorSRGB.g, ColorSRGB.b), 2.4f), ColorSRGB.a};
 }
-- 
2.43.0


From 59d2f9b14bcef1698a77a02aa82f28e14d7eba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 12/23] fix: two-component vectors accepted the index 2

---
 src/bvec2.cpp | 4 ++--
 src/ivec2.cpp | 4 ++--
 src/vec2.cpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bvec2.cpp b/src/bvec2.cpp
index 27f0619..f353495 100644
--- a/src/bvec2.cpp
+++ b/src/bvec2.cpp
@@ -132,7 +132,7 @@ bool zcm::operator !=(zcm::bvec2 first, zcm::bvec2 second) noexcept
 
 bool& zcm::bvec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
@@ -144,7 +144,7 @@ bool& zcm::bvec2::operator[](unsigned val) noexcept
 
 bool zcm::bvec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
diff --git a/src/ivec2.cpp b/src/ivec2.cpp
index ceeca53..43e4e4a 100644
--- a/src/ivec2.cpp
+++ b/src/ivec2.cpp
@@ -105,13 +105,13 @@ bool zcm::operator>=(zcm::ivec2 first, zcm::ivec2 second) noexcept
 
 int32_t& zcm::ivec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const int32_t& zcm::ivec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
diff --git a/src/vec2.cpp b/src/vec2.cpp
index 4a80148..b8bb5b5 100644
--- a/src/vec2.cpp
+++ b/src/vec2.cpp
@@ -101,13 +101,13 @@ bool zcm::operator!=(zcm::vec2 first, zcm::vec2 second) noexcept
 
 float& zcm::vec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const float& zcm::vec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
-- 
2.43.0


From c2ea68c527bb7c7def7ede562ddcec9ecad2a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 13/23] fix: inverseTranspose(mat2) and adjugateTranspose(mat2)
 did not transpose

---
 src/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 0b1ea48..bdb40e7 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -286,8 +286,8 @@ zcm::mat2 zcm::inverseTranspose(const zcm::mat2 &m) noexcept
 
     mat2 Inverse(
         + m[1][1] / Determinant,
-        - m[0][1] / Determinant,
         - m[1][0] / Determinant,
+        - m[0][1] / Determinant,
         + m[0][0] / Determinant);
 
     return Inverse;
@@ -368,8 +368,8 @@ zcm::mat4 zcm::inverseTranspose(const zcm::mat4 &m) noexcept
 zcm::mat2 zcm::adjugateTranspose(const mat2 &m) noexcept
 {
     mat2 Adjugate(+ m[1][1],
-                  - m[0][1],
                   - m[1][0],
+                  - m[0][1],
                   + m[0][0]);
 
     return Adjugate;
-- 
2.43.0


From 6b0f09ee5b03763a8ab8fbc283bebb1a20aef8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 14/23] fix: angle of a unit quaternion was NaN when w rounded
 past 1

---
 src/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.cpp b/src/quaternion.cpp
index f8f2014..c85d6dd 100644
--- a/src/quaternion.cpp
+++ b/src/quaternion.cpp
@@ -204,7 +204,7 @@ zcm::vec3 zcm_vectorcall zcm::axis(zcm::quat q) noexcept
 
 float zcm_vectorcall zcm::angle(zcm::quat q) noexcept
 {
-    return acos(q.w) * 2.0f;
+    return acos(clamp(q.w, -1.0f, 1.0f)) * 2.0f;
 }
 
 zcm::quat zcm::angleAxis(float angle, zcm::vec3 axis) noexcept
-- 
2.43.0


From 88554f8d1fa596b89a5e1e80f127dc370631797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 15/23] fix: define the ivec4 operators declared in ivec4.hpp
 but missing from the library

---
 src/ivec4.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ivec4.cpp b/src/ivec4.cpp
index f8ff2cc..7b29d8a 100644
--- a/src/ivec4.cpp
+++ b/src/ivec4.cpp
@@ -90,12 +90,24 @@ ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, +)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, -)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, *)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, /)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, %)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, |)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, &)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, ^)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, >>)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, <<)
 }
 
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, +=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, -=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, *=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, /=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, %=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, |=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, &=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, ^=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, >>=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, <<=)
 
 zcm::ivec4 zcm::operator -(zcm::ivec4 first) noexcept
 {
-- 
2.43.0


From 50a715b778338f9c66eaf6471a65c9129bf8b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 16/23] fix: components of integer vectors could not be
 assigned an int

The implicit copy assignment of the derived accessor hid operator=(T).
---
 include/zcm/detail/vec2_access.hpp | 2 ++
 include/zcm/detail/vec3_access.hpp | 2 ++
 include/zcm/detail/vec4_access.hpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/zcm/detail/vec2_access.hpp b/include/zcm/detail/vec2_access.hpp
index 9e843e5..1b964a8 100644
--- a/include/zcm/detail/vec2_access.hpp
+++ b/include/zcm/detail/vec2_access.hpp
@@ -58,6 +58,8 @@ T format_as(const scalar_accessor_2<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_2i : public scalar_accessor_2<T, index>
 {
+    using scalar_accessor_2<T, index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_2<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec3_access.hpp b/include/zcm/detail/vec3_access.hpp
index e44babd..bdefe00 100644
--- a/include/zcm/detail/vec3_access.hpp
+++ b/include/zcm/detail/vec3_access.hpp
@@ -58,6 +58,8 @@ T format_as(const scalar_accessor_3<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_3i : public scalar_accessor_3<T, index>
 {
+    using scalar_accessor_3<T, index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_3<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec4_access.hpp b/include/zcm/detail/vec4_access.hpp
index 812b6b1..c7cdec6 100644
--- a/include/zcm/detail/vec4_access.hpp
+++ b/include/zcm/detail/vec4_access.hpp
@@ -59,6 +59,8 @@ T format_as(const scalar_accessor_4<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_4i : public scalar_accessor_4<T, index>
 {
+    using scalar_accessor_4<T, index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_4<T,index>::_data[index] %= s;
     }
-- 
2.43.0


From 6e04efdcc74805ba9768c7aa1c04c1aa95fa6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 17/23] fix: assigning one vector component to another copied
 the whole vector

a.x = b.x selected the accessor's implicit copy assignment, which copies
every component.  The vectors get their own copy assignment in exchange.
---
 include/zcm/detail/vec2_access.hpp | 13 +++++++++++++
 include/zcm/detail/vec3_access.hpp | 13 +++++++++++++
 include/zcm/detail/vec4_access.hpp | 14 ++++++++++++++
 include/zcm/ivec2.hpp              |  8 ++++++++
 include/zcm/ivec3.hpp              |  9 +++++++++
 include/zcm/ivec4.hpp              | 10 ++++++++++
 include/zcm/vec2.hpp               |  8 ++++++++
 include/zcm/vec3.hpp               |  9 +++++++++
 include/zcm/vec4.hpp               | 10 ++++++++++
 9 files changed, 94 insertions(+)

diff --git a/include/zcm/detail/vec2_access.hpp b/include/zcm/detail/vec2_access.hpp
index 1b964a8..e71645b 100644
--- a/include/zcm/detail/vec2_access.hpp
+++ b/include/zcm/detail/vec2_access.hpp
@@ -13,6 +13,15 @@ struct scalar_accessor_2
 {
     T _data[2];
 
+    scalar_accessor_2() = default;
+    scalar_accessor_2(const scalar_accessor_2&) = default;
+
+    // the accessor is a view of one component: assigning it must leave the others alone
+    scalar_accessor_2& operator =(const scalar_accessor_2& other) noexcept {
+        _data[index] = other._data[index];
+        return *this;
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
@@ -131,6 +140,10 @@ struct shuffle_accessor_2
 {
     T _data[2];
 
+    shuffle_accessor_2() = default;
+    shuffle_accessor_2(const shuffle_accessor_2&) = default;
+    shuffle_accessor_2& operator =(const shuffle_accessor_2&) = delete;
+
     operator V() const noexcept {
         return V{_data[indices]...};
     }
diff --git a/include/zcm/detail/vec3_access.hpp b/include/zcm/detail/vec3_access.hpp
index bdefe00..05de5b9 100644
--- a/include/zcm/detail/vec3_access.hpp
+++ b/include/zcm/detail/vec3_access.hpp
@@ -15,6 +15,15 @@ struct scalar_accessor_3
 {
     T _data[3];
 
+    scalar_accessor_3() = default;
+    scalar_accessor_3(const scalar_accessor_3&) = default;
+
+    // the accessor is a view of one component: assigning it must leave the others alone
+    scalar_accessor_3& operator =(const scalar_accessor_3& other) noexcept {
+        _data[index] = other._data[index];
+        return *this;
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
@@ -138,6 +147,10 @@ struct shuffle_accessor_3
 {
     T _data[3];
 
+    shuffle_accessor_3() = default;
+    shuffle_accessor_3(const shuffle_accessor_3&) = default;
+    shuffle_accessor_3& operator =(const shuffle_accessor_3&) = delete;
+
     operator V() const noexcept {
         return V{_data[indices]...};
     }
diff --git a/include/zcm/detail/vec4_access.hpp b/include/zcm/detail/vec4_access.hpp
index c7cdec6..236ff29 100644
--- a/include/zcm/detail/vec4_access.hpp
+++ b/include/zcm/detail/vec4_access.hpp
@@ -17,6 +17,15 @@ struct scalar_accessor_4
 {
     T _data[4];
 
+    scalar_accessor_4() = default;
+    scalar_accessor_4(const scalar_accessor_4&) = default;
+
+    // the accessor is a view of one component: assigning it must leave the others alone
+    scalar_accessor_4& operator =(const scalar_accessor_4& other) noexcept {
+        _data[index] = other._data[index];
+        return *this;
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
@@ -141,6 +150,11 @@ template<typename T, typename V, int... indices>
 struct shuffle_accessor_4
 {
     T _data[4];
+
+    shuffle_accessor_4() = default;
+    shuffle_accessor_4(const shuffle_accessor_4&) = default;
+    shuffle_accessor_4& operator =(const shuffle_accessor_4&) = delete;
+
     operator V() const noexcept {
         return V{_data[indices]...};
     }
diff --git a/include/zcm/ivec2.hpp b/include/zcm/ivec2.hpp
index a8c94c7..372afdd 100644
--- a/include/zcm/ivec2.hpp
+++ b/include/zcm/ivec2.hpp
@@ -11,6 +11,14 @@ namespace zcm
     {
         ivec2() noexcept;
         explicit ivec2(no_init_t) noexcept;
+        ivec2(const ivec2&) = default;
+        ivec2& operator =(const ivec2& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            return *this;
+        }
+
         ivec2(int32_t value) noexcept;
         ivec2(int64_t) = delete;
         ivec2(float)   = delete;
diff --git a/include/zcm/ivec3.hpp b/include/zcm/ivec3.hpp
index 9fb1c81..ef346e9 100644
--- a/include/zcm/ivec3.hpp
+++ b/include/zcm/ivec3.hpp
@@ -12,6 +12,15 @@ namespace zcm
     {
         ivec3() noexcept;
         explicit ivec3(no_init_t) noexcept;
+        ivec3(const ivec3&) = default;
+        ivec3& operator =(const ivec3& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            return *this;
+        }
+
         ivec3(int32_t value) noexcept;
         ivec3(int64_t) = delete;
         ivec3(float)   = delete;
diff --git a/include/zcm/ivec4.hpp b/include/zcm/ivec4.hpp
index feaec88..56934f1 100644
--- a/include/zcm/ivec4.hpp
+++ b/include/zcm/ivec4.hpp
@@ -13,6 +13,16 @@ namespace zcm
     {
         ivec4 () noexcept;
         explicit ivec4 (no_init_t) noexcept;
+        ivec4 (const ivec4&) = default;
+        ivec4& operator =(const ivec4& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            _data[3] = other._data[3];
+            return *this;
+        }
+
         ivec4 (int32_t value) noexcept;
         ivec4 (int64_t) = delete;
         ivec4 (float)   = delete;
diff --git a/include/zcm/vec2.hpp b/include/zcm/vec2.hpp
index 533647f..82edf9b 100644
--- a/include/zcm/vec2.hpp
+++ b/include/zcm/vec2.hpp
@@ -10,6 +10,14 @@ namespace zcm
     {
         vec2() noexcept;
         explicit vec2(no_init_t) noexcept;
+        vec2(const vec2&) = default;
+        vec2& operator =(const vec2& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            return *this;
+        }
+
         vec2(float value) noexcept;
         vec2(int32_t) noexcept;
         vec2(int64_t) = delete;
diff --git a/include/zcm/vec3.hpp b/include/zcm/vec3.hpp
index e3a48ce..17311f8 100644
--- a/include/zcm/vec3.hpp
+++ b/include/zcm/vec3.hpp
@@ -11,6 +11,15 @@ namespace zcm
     {
         vec3() noexcept;
         explicit vec3(no_init_t) noexcept;
+        vec3(const vec3&) = default;
+        vec3& operator =(const vec3& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            return *this;
+        }
+
         vec3(float value) noexcept;
         vec3(int32_t) noexcept;
         vec3(int64_t) = delete;
diff --git a/include/zcm/vec4.hpp b/include/zcm/vec4.hpp
index eeadc43..55e9765 100644
--- a/include/zcm/vec4.hpp
+++ b/include/zcm/vec4.hpp
@@ -13,6 +13,16 @@ namespace zcm
     {
         vec4 () noexcept;
         explicit vec4 (no_init_t) noexcept;
+        vec4 (const vec4&) = default;
+        vec4& operator =(const vec4& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            _data[3] = other._data[3];
+            return *this;
+        }
+
         vec4 (float value) noexcept;
         vec4 (int32_t) noexcept;
         vec4 (int64_t) = delete;
-- 
2.43.0


From 359a59259c5c396071c9922829ca7a97b1b5d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 18/23] fix: convertLinearToSRGB without a gamma gave negative
 colours near black

The fast approximation is off by up to 0.037 below 0.0031308 and negative
there; the header promises the standard IEC 61966-2-1 curve.
---
 src/color_space.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 6198cce..1f01e99 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -20,11 +20,7 @@ zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
 
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear) noexcept
 {
-	// Based on Ian Taylor http://chilliant.blogspot.fr/2012/08/srgb-approximations-for-hlsl.html
-	vec3 S1 = sqrt(colorLinear);
-	vec3 S2 = sqrt(S1);
-	vec3 S3 = sqrt(S2);
-	return 0.662002687f * S1 + 0.684122060f * S2 - 0.323583601f * S3 - 0.0225411470f * colorLinear;
+	return convertLinearToSRGB(colorLinear, 2.4f);
 }
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 colorLinear) noexcept
-- 
2.43.0


From e75381c948462c6b3688fb4fe882523d2b042da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 19/23] fix: sign(NaN) is 0 like GLM's, not -1

---
 src/common.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common.cpp b/src/common.cpp
index 53420e9..bcebba0 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -377,13 +377,13 @@ zcm::vec4 zcm_vectorcall zcm::roundEven(zcm::vec4 x) noexcept
 
 float zcm::sign(float x) noexcept
 {
-    if(x == 0.0f) {
-        return 0.0f;
-    }
     if(x > 0.0f) {
         return 1.0f;
     }
-    return -1.0f;
+    if(x < 0.0f) {
+        return -1.0f;
+    }
+    return 0.0f;
 }
 
 zcm::vec2 zcm::sign(const zcm::vec2& x) noexcept
-- 
2.43.0


From 4f46e6775263b7752c41821ef8ae4a79ae988ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 20/23] fix: angle of a quaternion lost small rotations

acos(w) cannot tell rotations below about 5e-4 from none; near w = 1 and -1
take the angle from the vector part, as GLM does.
---
 src/quaternion.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.cpp b/src/quaternion.cpp
index c85d6dd..e209885 100644
--- a/src/quaternion.cpp
+++ b/src/quaternion.cpp
@@ -2,6 +2,7 @@
 #include <limits>
 #include <zcm/quaternion.hpp>
 #include <zcm/common.hpp>
+#include <zcm/constants.hpp>
 #include <zcm/exponential.hpp>
 #include <zcm/geometric.hpp>
 #include <zcm/angle_and_trigonometry.hpp>
@@ -204,7 +205,14 @@ zcm::vec3 zcm_vectorcall zcm::axis(zcm::quat q) noexcept
 
 float zcm_vectorcall zcm::angle(zcm::quat q) noexcept
 {
-    return acos(clamp(q.w, -1.0f, 1.0f)) * 2.0f;
+    // acos is inaccurate near -1 and 1: there, take the angle from the vector part
+    if(abs(q.w) > 0.877582562f) // cos(1/2)
+    {
+        const float a = asin(min(sqrt(q.x * q.x + q.y * q.y + q.z * q.z), 1.0f)) * 2.0f;
+        return q.w < 0.0f ? two_pi() - a : a;
+    }
+
+    return acos(q.w) * 2.0f;
 }
 
 zcm::quat zcm::angleAxis(float angle, zcm::vec3 axis) noexcept
-- 
2.43.0


From 45c1d7c983b252cc9f1c22fccd1129d609d145f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 21/23] fix: scalar + vec2 and scalar - vec2 were defined but
 not declared

---
 include/zcm/vec2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zcm/vec2.hpp b/include/zcm/vec2.hpp
index 82edf9b..1c5d913 100644
--- a/include/zcm/vec2.hpp
+++ b/include/zcm/vec2.hpp
@@ -74,8 +74,8 @@ namespace zcm
     vec2 operator *(vec2 vec, float scalar) noexcept;
     vec2 operator /(vec2 vec, float scalar) noexcept;
 
-    vec2 operator +(vec2 vec, float scalar) noexcept;
-    vec2 operator -(vec2 vec, float scalar) noexcept;
+    vec2 operator +(float scalar, vec2 vec) noexcept;
+    vec2 operator -(float scalar, vec2 vec) noexcept;
     vec2 operator *(float scalar, vec2 vec) noexcept;
     vec2 operator /(float scalar, vec2 vec) noexcept;
 
-- 
2.43.0


From 1fd6aa783257ba9bd290848340a97229ee358a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 22/23] fix: a Debug build made by GCC with coverage left every
 user of the zcm target without gcov's runtime at link time

---
 CMakeLists.txt | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 569a7f0..8c57c11 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -60,6 +60,9 @@ add_library(zcm STATIC
 
 add_library(zcm::zcm ALIAS zcm)
 target_include_directories(zcm PUBLIC include)
+if(ZCM_CODE_COVERAGE_ENABLED)
+    target_link_libraries(zcm PUBLIC gcov)
+endif()
 set_target_properties(zcm
     PROPERTIES
         CXX_STANDARD 14
-- 
2.43.0


From 1924509bf3f047db122ba7e27bd33ac109f9c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 23/23] fix: the four perspective functions were the only
 operations not declared noexcept

---
 include/zcm/matrix_transform.hpp | 8 ++++----
 src/matrix_transform.cpp         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/zcm/matrix_transform.hpp b/include/zcm/matrix_transform.hpp
index b87f8cd..a246985 100644
--- a/include/zcm/matrix_transform.hpp
+++ b/include/zcm/matrix_transform.hpp
@@ -14,14 +14,14 @@ namespace zcm
     /// clip space from zero to one (DX convention)
     mat4  orthoLH_ZO (float left, float right, float bottom, float top, float zNear, float zFar) noexcept;
     mat4  orthoRH_ZO (float left, float right, float bottom, float top, float znear, float zfar) noexcept;
-    mat4  perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFar);
-    mat4  perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFar);
+    mat4  perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFar) noexcept;
+    mat4  perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFar) noexcept;
 
     /// clip space from negative one to one (OpenGL default convention)
     mat4  orthoLH_NO (float left, float right, float bottom, float top, float znear, float zfar) noexcept;
     mat4  orthoRH_NO (float left, float right, float bottom, float top, float znear, float zfar) noexcept;
-    mat4  perspectiveRH_NO(float fovy, float aspect, float zNear, float zFar);
-    mat4  perspectiveLH_NO(float fovy, float aspect, float zNear, float zFar);
+    mat4  perspectiveRH_NO(float fovy, float aspect, float zNear, float zFar) noexcept;
+    mat4  perspectiveLH_NO(float fovy, float aspect, float zNear, float zFar) noexcept;
 
     mat4  rotate (const mat4& m, float angle, const vec3& axis) noexcept;
     mat4  scale (const mat4& m, const vec3& v) noexcept;
diff --git a/src/matrix_transform.cpp b/src/matrix_transform.cpp
index 0c69a42..20f784e 100644
--- a/src/matrix_transform.cpp
+++ b/src/matrix_transform.cpp
@@ -160,7 +160,7 @@ zcm::mat4 zcm::orthoRH_NO(float left, float right, float bottom, float top, floa
     return Result;
 }
 
-zcm::mat4 zcm::perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFar)
+zcm::mat4 zcm::perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFar) noexcept
 {
     assert(zcm::abs(aspect - std::numeric_limits<float>::epsilon()) > 0.0f);
 
@@ -175,7 +175,7 @@ zcm::mat4 zcm::perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFa
     return Result;
 }
 
-zcm::mat4 zcm::perspectiveRH_NO(float fovy, float aspect, float zNear, float zFar)
+zcm::mat4 zcm::perspectiveRH_NO(float fovy, float aspect, float zNear, float zFar) noexcept
 {
     assert(abs(aspect - std::numeric_limits<float>::epsilon()) > 0.0f);
 
@@ -190,7 +190,7 @@ zcm::mat4 zcm::perspectiveRH_NO(float fovy, float aspect, float zNear, float zFa
     return Result;
 }
 
-zcm::mat4 zcm::perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFar)
+zcm::mat4 zcm::perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFar) noexcept
 {
     assert(abs(aspect - std::numeric_limits<float>::epsilon()) > 0.0f);
 
@@ -205,7 +205,7 @@ zcm::mat4 zcm::perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFa
     return Result;
 }
 
-zcm::mat4 zcm::perspectiveLH_NO(float fovy, float aspect, float zNear, float zFar)
+zcm::mat4 zcm::perspectiveLH_NO(float fovy, float aspect, float zNear, float zFar) noexcept
 {
     assert(abs(aspect - std::numeric_limits<float>::epsilon()) > 0.0f);
 
-- 
2.43.0

