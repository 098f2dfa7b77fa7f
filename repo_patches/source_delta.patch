From abc8be1437cc1e9e44326d7371aab346c282dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 01/21] fix: struct API handed euler headers include paths that
 exist

---
 include/cglm/struct/handed/euler_to_quat_lh.h | 4 +++-
 include/cglm/struct/handed/euler_to_quat_rh.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/handed/euler_to_quat_lh.h b/include/cglm/struct/handed/euler_to_quat_lh.h
index 3964e51..f895d93 100644
--- a/include/cglm/struct/handed/euler_to_quat_lh.h
+++ b/include/cglm/struct/handed/euler_to_quat_lh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_lh_h
 #define cglms_euler_to_quat_lh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_lh.h"
 
 
 /*!
diff --git a/include/cglm/struct/handed/euler_to_quat_rh.h b/include/cglm/struct/handed/euler_to_quat_rh.h
index 6c7f400..d1a7967 100644
--- a/include/cglm/struct/handed/euler_to_quat_rh.h
+++ b/include/cglm/struct/handed/euler_to_quat_rh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_rh_h
 #define cglms_euler_to_quat_rh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_rh.h"
 
 
 /*!
-- 
2.43.0


From ff3990ba332ad13347a5a7c6f4387f4cc886eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 02/21] fix: glms_aabb2d_radius calls the existing diag
 function

---
 include/cglm/struct/aabb2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/aabb2d.h b/include/cglm/struct/aabb2d.h
index 9077069..d7c13f1 100644
--- a/include/cglm/struct/aabb2d.h
+++ b/include/cglm/struct/aabb2d.h
@@ -168,7 +168,7 @@ glms_aabb2d_(sizev)(vec2s aabb[2]) {
 CGLM_INLINE
 float
 glms_aabb2d_(radius)(vec2s aabb[2]) {
-  return glms_aabb2d_(size)(aabb) * 0.5f;
+  return glms_aabb2d_(diag)(aabb) * 0.5f;
 }
 
 /*!
-- 
2.43.0


From 6b495b4b77b7453db2a6ee3ce8bd010c8a5c1c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 03/21] fix: post rotations keep and rotate the existing
 translation

glm_rotated_x/y/z and glm_rotated multiplied with glm_mul_rot(), which takes
the translation of its left operand, so the translation of the existing
transform was dropped instead of being rotated (T' = R * T).
---
 include/cglm/affine-post.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index 3e297e6..a83c637 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -130,7 +130,7 @@ glm_rotated_x(mat4 m, float angle, mat4 dest) {
   t[2][1] = -s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -157,7 +157,7 @@ glm_rotated_y(mat4 m, float angle, mat4 dest) {
   t[2][0] =  s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -184,7 +184,7 @@ glm_rotated_z(mat4 m, float angle, mat4 dest) {
   t[1][0] = -s;
   t[1][1] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -201,7 +201,7 @@ void
 glm_rotated(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
   glm_rotate_make(rot, angle, axis);
-  glm_mul_rot(rot, m, m);
+  glm_mul(rot, m, m);
 }
 
 /*!
-- 
2.43.0


From 59d465c23abfcacba269b80498f0d68a7a66f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 04/21] fix: glm_rotated_at rotates around pivot instead of
 -pivot

---
 include/cglm/affine-post.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index a83c637..f312618 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -222,9 +222,9 @@ glm_rotated_at(mat4 m, vec3 pivot, float angle, vec3 axis) {
 
   glm_vec3_negate_to(pivot, pivotInv);
 
-  glm_translated(m, pivot);
-  glm_rotated(m, angle, axis);
   glm_translated(m, pivotInv);
+  glm_rotated(m, angle, axis);
+  glm_translated(m, pivot);
 }
 
 /*!
-- 
2.43.0


From a15b3febb7a6c4d48a4d93281cdd975e2834db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 05/21] fix: glm_spin keeps the position of the transform

It rotated around m[3] in the local space of m, so the object moved unless it
was at the origin; spinning around itself is a rotation around the local origin.
---
 include/cglm/affine-pre.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-pre.h b/include/cglm/affine-pre.h
index 2fa77f7..7e94cfa 100644
--- a/include/cglm/affine-pre.h
+++ b/include/cglm/affine-pre.h
@@ -297,8 +297,8 @@ CGLM_INLINE
 void
 glm_spin(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
-  glm_rotate_atm(rot, m[3], angle, axis);
-  glm_mat4_mul(m, rot, m);
+  glm_rotate_make(rot, angle, axis);
+  glm_mul_rot(m, rot, m);
 }
 
 #endif /* cglm_affine_pre_h */
-- 
2.43.0


From 4ebce43331ba1c2dde07f9b9343692f09971a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 06/21] fix: glm_quat_slerp keeps the short arc for nearly
 opposite quaternions

---
 include/cglm/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index cf1f325..fccce5b 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -730,7 +730,7 @@ glm_quat_slerp(versor from, versor to, float t, versor dest) {
 
   /* LERP to avoid zero division */
   if (fabsf(sinTheta) < 0.001f) {
-    glm_quat_lerp(from, to, t, dest);
+    glm_quat_lerp(q1, to, t, dest);
     return;
   }
 
-- 
2.43.0


From 36d3650109bb1855779e2c4ea4612c8d39864dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 07/21] fix: left-handed frustum and its decomposition map the
 off-center window correctly

---
 include/cglm/clipspace/persp_lh_no.h | 12 ++++++------
 include/cglm/clipspace/persp_lh_zo.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_no.h b/include/cglm/clipspace/persp_lh_no.h
index d28923a..632ca0f 100644
--- a/include/cglm/clipspace/persp_lh_no.h
+++ b/include/cglm/clipspace/persp_lh_no.h
@@ -79,8 +79,8 @@ glm_frustum_lh_no(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-(farZ + nearZ) * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nv * fn;
@@ -201,8 +201,8 @@ glm_persp_decomp_lh_no(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -254,7 +254,7 @@ glm_persp_decomp_x_lh_no(mat4 proj,
   float nearZ, m20, m00, m22;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
   m22 =-proj[2][2];
 
   nearZ = proj[3][2] / (m22 - 1.0f);
@@ -279,7 +279,7 @@ glm_persp_decomp_y_lh_no(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11, m22;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
   m22 =-proj[2][2];
 
diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index de89643..488becf 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -78,8 +78,8 @@ glm_frustum_lh_zo(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-farZ * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nearZ * fn;
@@ -197,8 +197,8 @@ glm_persp_decomp_lh_zo(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -248,7 +248,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   float nearZ, m20, m00;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
 
   nearZ = proj[3][2] / (proj[3][3]);
   *left   = nearZ * (m20 - 1.0f) / m00;
@@ -272,7 +272,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
 
   nearZ = proj[3][2] / (proj[3][3]);
-- 
2.43.0


From 6472dd2bd33bd9163ae74b06450b809b9b51f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 08/21] fix: glm_persp_decomp_x/y_lh_zo read the near plane
 from the right elements

---
 include/cglm/clipspace/persp_lh_zo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index 488becf..36ecb36 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -250,7 +250,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   m00 = proj[0][0];
   m20 =-proj[2][0];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *left   = nearZ * (m20 - 1.0f) / m00;
   *right  = nearZ * (m20 + 1.0f) / m00;
 }
@@ -275,7 +275,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
   m21 =-proj[2][1];
   m11 = proj[1][1];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *bottom = nearZ * (m21 - 1) / m11;
   *top    = nearZ * (m21 + 1) / m11;
 }
-- 
2.43.0


From ff114f4334cc75e20ba4d4d898306d22ca2253c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 09/21] fix: glm_ortho_aabb*_lh project the box, not its mirror
 image

---
 include/cglm/clipspace/ortho_lh_no.h | 6 +++---
 include/cglm/clipspace/ortho_lh_zo.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cglm/clipspace/ortho_lh_no.h b/include/cglm/clipspace/ortho_lh_no.h
index 76c7a94..71f2c89 100644
--- a/include/cglm/clipspace/ortho_lh_no.h
+++ b/include/cglm/clipspace/ortho_lh_no.h
@@ -83,7 +83,7 @@ void
 glm_ortho_aabb_lh_no(vec3 box[2], mat4 dest) {
   glm_ortho_lh_no(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -103,7 +103,7 @@ void
 glm_ortho_aabb_p_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -123,7 +123,7 @@ void
 glm_ortho_aabb_pz_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
diff --git a/include/cglm/clipspace/ortho_lh_zo.h b/include/cglm/clipspace/ortho_lh_zo.h
index e45530d..9c88eb0 100644
--- a/include/cglm/clipspace/ortho_lh_zo.h
+++ b/include/cglm/clipspace/ortho_lh_zo.h
@@ -81,7 +81,7 @@ void
 glm_ortho_aabb_lh_zo(vec3 box[2], mat4 dest) {
   glm_ortho_lh_zo(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -100,7 +100,7 @@ void
 glm_ortho_aabb_p_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -119,7 +119,7 @@ void
 glm_ortho_aabb_pz_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
-- 
2.43.0


From 0e4669c0d2f7f693eb1c896e4a7426020b802096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 10/21] fix: glms_frustum_corners_at writes four corners, not
 eight

---
 include/cglm/struct/frustum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/frustum.h b/include/cglm/struct/frustum.h
index 81b5b7b..4b043d9 100644
--- a/include/cglm/struct/frustum.h
+++ b/include/cglm/struct/frustum.h
@@ -149,7 +149,7 @@ glms_frustum_corners_at(vec4s corners[8],
 
   glms_vec4_(unpack)(rawCorners, corners, 8);
   glm_frustum_corners_at(rawCorners, splitDist, farDist, rawPlaneCorners);
-  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 8);
+  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 4);
 }
 
 #endif /* cglms_frustums_h */
-- 
2.43.0


From 3ce510994aefc6145c0fe52644eaa3ccb5c42c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 11/21] fix: box/sphere overlap measures the distance to the
 nearest face

---
 include/cglm/aabb2d.h | 4 ++--
 include/cglm/box.h    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 6369d08..03c6773 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -235,8 +235,8 @@ glm_aabb2d_circle(vec2 aabb[2], vec3 c) {
   a = (c[0] < aabb[0][0]) + (c[0] > aabb[1][0]);
   b = (c[1] < aabb[0][1]) + (c[1] > aabb[1][1]);
 
-  dmin  = glm_pow2((c[0] - aabb[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((c[1] - aabb[!(b - 1)][1]) * (b != 0));
+  dmin  = glm_pow2((c[0] - aabb[c[0] > aabb[1][0]][0]) * (a != 0))
+        + glm_pow2((c[1] - aabb[c[1] > aabb[1][1]][1]) * (b != 0));
 
   return dmin <= glm_pow2(c[2]);
 }
diff --git a/include/cglm/box.h b/include/cglm/box.h
index 8bba678..a56909b 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -243,9 +243,9 @@ glm_aabb_sphere(vec3 box[2], vec4 s) {
   b = (s[1] < box[0][1]) + (s[1] > box[1][1]);
   c = (s[2] < box[0][2]) + (s[2] > box[1][2]);
 
-  dmin  = glm_pow2((s[0] - box[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((s[1] - box[!(b - 1)][1]) * (b != 0))
-        + glm_pow2((s[2] - box[!(c - 1)][2]) * (c != 0));
+  dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))
+        + glm_pow2((s[1] - box[s[1] > box[1][1]][1]) * (b != 0))
+        + glm_pow2((s[2] - box[s[2] > box[1][2]][2]) * (c != 0));
 
   return dmin <= glm_pow2(s[3]);
 }
-- 
2.43.0


From 3f15a245cd38daf531895b4aa80ac12b9a81a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 12/21] fix: first half of glm_ease_bounce_inout runs forward
 from 0

---
 include/cglm/ease.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ease.h b/include/cglm/ease.h
index e26b48c..a833341 100644
--- a/include/cglm/ease.h
+++ b/include/cglm/ease.h
@@ -309,7 +309,7 @@ CGLM_INLINE
 float
 glm_ease_bounce_inout(float t) {
   if (t < 0.5f)
-    return 0.5f * (1.0f - glm_ease_bounce_out(t * 2.0f));
+    return 0.5f * (1.0f - glm_ease_bounce_out(1.0f - t * 2.0f));
 
   return 0.5f * glm_ease_bounce_out(t * 2.0f - 1.0f) + 0.5f;
 }
-- 
2.43.0


From f65559a5e692d72df1b69201a077abbb23dcb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 13/21] fix: glm_ray_sphere returns 0, not NaN, for a ray
 tangent at its origin

---
 include/cglm/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ray.h b/include/cglm/ray.h
index d7831bc..21decd9 100644
--- a/include/cglm/ray.h
+++ b/include/cglm/ray.h
@@ -134,7 +134,7 @@ glm_ray_sphere(vec3 origin,
      "Numerical Recipes in C," Cambridge University Press, 1992.
    */
   _t1 = q;
-  _t2 = (dpp - r2) / q;
+  _t2 = q != 0.0f ? (dpp - r2) / q : 0.0f;
 
   /* adjust t1 and t2 to ensure t1 is the closer intersection */
   if (_t1 > _t2) {
-- 
2.43.0


From ae54bf13d37162012ef2d6c09b6dfce720e75ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 14/21] fix: glm_quat_mul without SIMD gave a wrong product
 when dest is p or q

---
 include/cglm/quat.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index fccce5b..fabe00d 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -466,10 +466,18 @@ glm_quat_mul(versor p, versor q, versor dest) {
 #elif defined(CGLM_NEON_FP)
   glm_quat_mul_neon(p, q, dest);
 #else
-  dest[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
-  dest[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
-  dest[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
-  dest[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+  /* dest may be p or q */
+  float x, y, z, w;
+
+  x = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
+  y = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
+  z = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
+  w = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+
+  dest[0] = x;
+  dest[1] = y;
+  dest[2] = z;
+  dest[3] = w;
 #endif
 }
 
-- 
2.43.0


From 53da0ddf0011f5a5413f77ccf57a558768d84173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 15/21] fix: glm_mat2_mulv gave a wrong result when dest is v

---
 include/cglm/mat2.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 5bec482..1214091 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -181,8 +181,13 @@ glm_mat2_mul(mat2 m1, mat2 m2, mat2 dest) {
 CGLM_INLINE
 void
 glm_mat2_mulv(mat2 m, vec2 v, vec2 dest) {
-  dest[0] = m[0][0] * v[0] + m[1][0] * v[1];
-  dest[1] = m[0][1] * v[0] + m[1][1] * v[1];
+  vec2 res;
+
+  res[0] = m[0][0] * v[0] + m[1][0] * v[1];
+  res[1] = m[0][1] * v[0] + m[1][1] * v[1];
+
+  dest[0] = res[0];
+  dest[1] = res[1];
 }
 
 /*!
-- 
2.43.0


From 7ac03da479fcc7791e022878f0b4b5b23ae4b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 16/21] fix: glm_vec4_reflect lost w when dest is v

---
 include/cglm/vec4.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index ded09c9..e42cf0b 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -1299,13 +1299,16 @@ glm_vec4_make(const float * __restrict src, vec4 dest) {
 CGLM_INLINE
 void
 glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
-  vec4 temp;
+  vec4  temp;
+  float w;
+
+  w = v[3]; /* dest may be v */
 
   /* TODO: direct simd touch */
   glm_vec4_scale(n, 2.0f * glm_vec4_dot(v, n), temp);
   glm_vec4_sub(v, temp, dest);
 
-  dest[3] = v[3];
+  dest[3] = w;
 }
 
 /*!
-- 
2.43.0


From a92457cd0e2854dce9e98da749cbbff78d9aeb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 17/21] fix: glm_mat*_print chose the number format by the
 transposed element

---
 include/cglm/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cglm/io.h b/include/cglm/io.h
index baa80f1..33c5d31 100644
--- a/include/cglm/io.h
+++ b/include/cglm/io.h
@@ -143,7 +143,7 @@ glm_mat4_print(mat4              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -186,7 +186,7 @@ glm_mat3_print(mat3              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -228,7 +228,7 @@ glm_mat2_print(mat2              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
-- 
2.43.0


From 5713916f9f49ac44ac7abff482c6bdf345a9a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 18/21] fix: SIMD glm_vec4_normalize compared the squared norm
 with FLT_EPSILON

The SSE and WASM paths flushed every vector shorter than sqrt(FLT_EPSILON)
(3.4e-4) to zero, while the plain C and NEON paths (and glm_vec3_normalize)
use a threshold of FLT_EPSILON on the norm itself.
---
 include/cglm/vec4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index e42cf0b..1316a27 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -917,7 +917,7 @@ glm_vec4_normalize_to(vec4 v, vec4 dest) {
   /* dot  = _mm_cvtss_f32(xdot); */
   dot  = wasm_f32x4_extract_lane(xdot, 0);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(dot < FLT_EPSILON * FLT_EPSILON)) {
     glmm_store(dest, wasm_f32x4_const_splat(0.f));
     return;
   }
@@ -931,7 +931,7 @@ glm_vec4_normalize_to(vec4 v, vec4 dest) {
   xdot = glmm_vdot(x0, x0);
   dot  = _mm_cvtss_f32(xdot);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(dot < FLT_EPSILON * FLT_EPSILON)) {
     glmm_store(dest, _mm_setzero_ps());
     return;
   }
-- 
2.43.0


From 6a9f198a1a38857b7365b7c430ad0444bcb49601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 19/21] fix: sign of the product and addend in glmm256_fnmsub

---
 include/cglm/simd/x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/simd/x86.h b/include/cglm/simd/x86.h
index 2410d0f..e44c3ba 100644
--- a/include/cglm/simd/x86.h
+++ b/include/cglm/simd/x86.h
@@ -353,9 +353,9 @@ static inline
 __m256
 glmm256_fnmsub(__m256 a, __m256 b, __m256 c) {
 #ifdef __FMA__
-  return _mm256_fmsub_ps(a, b, c);
+  return _mm256_fnmsub_ps(a, b, c);
 #else
-  return _mm256_xor_ps(_mm256_sub_ps(_mm256_mul_ps(a, b), c),
+  return _mm256_xor_ps(_mm256_add_ps(_mm256_mul_ps(a, b), c),
                        glmm_float32x8_SIGNMASK_NEG);
 #endif
 }
-- 
2.43.0


From 6b4cfde095dd4408f8b51dfa5c028ae690404d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 20/21] fix: do not align mat4 and mat4s when
 CGLM_ALL_UNALIGNED is defined

getting_started.rst documents mat4 as CGLM_ALIGN_IF(...), but the typedefs used
the unconditional CGLM_ALIGN_MAT: compilers then assume 16/32-byte alignment and
reading a mat4s at any other address crashes although alignment is disabled.
---
 include/cglm/types-struct.h | 2 +-
 include/cglm/types.h        | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cglm/types-struct.h b/include/cglm/types-struct.h
index d93152e..06cd4c6 100644
--- a/include/cglm/types-struct.h
+++ b/include/cglm/types-struct.h
@@ -261,7 +261,7 @@ typedef union mat3x4s {
 #endif
 } mat3x4s;
 
-typedef union CGLM_ALIGN_MAT mat4s {
+typedef union CGLM_ALIGN_MAT_IF mat4s {
   mat4  raw;
   vec4s col[4];
 #if CGLM_USE_ANONYMOUS_STRUCT
diff --git a/include/cglm/types.h b/include/cglm/types.h
index 7a482c0..78eea17 100644
--- a/include/cglm/types.h
+++ b/include/cglm/types.h
@@ -37,6 +37,12 @@
 #  define CGLM_ALIGN_MAT CGLM_ALIGN(16)
 #endif
 
+#ifndef CGLM_ALL_UNALIGNED
+#  define CGLM_ALIGN_MAT_IF CGLM_ALIGN_MAT
+#else
+#  define CGLM_ALIGN_MAT_IF /* no alignment */
+#endif
+
 #ifndef CGLM_HAVE_BUILTIN_ASSUME_ALIGNED
 
 #  if defined(__has_builtin)
@@ -87,7 +93,7 @@ typedef vec4                    mat3x4[3];  /* [col (3), row (4)] */
 typedef CGLM_ALIGN_IF(16) vec2  mat2[2];
 typedef vec3                    mat2x3[2];  /* [col (2), row (3)] */
 typedef vec4                    mat2x4[2];  /* [col (2), row (4)] */
-typedef CGLM_ALIGN_MAT    vec4  mat4[4];
+typedef CGLM_ALIGN_MAT_IF vec4  mat4[4];
 typedef vec2                    mat4x2[4];  /* [col (4), row (2)] */
 typedef vec3                    mat4x3[4];  /* [col (4), row (3)] */
 
-- 
2.43.0


From cc61fd1102e9cd13e3565a69ae255508877cd7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 21/21] fix: glms_vec2_min and glms_vec2_isvalid ignored the
 struct API namespace options

Unlike every other glms_vec2_ function they were not declared through
glms_vec2_(), so CGLM_OMIT_NS_FROM_STRUCT_API, CGLM_STRUCT_API_NS and
CGLM_STRUCT_API_NAME_SUFFIX left their names alone.
---
 include/cglm/struct/vec2-ext.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/vec2-ext.h b/include/cglm/struct/vec2-ext.h
index 246132f..12c62ff 100644
--- a/include/cglm/struct/vec2-ext.h
+++ b/include/cglm/struct/vec2-ext.h
@@ -134,7 +134,7 @@ glms_vec2_(max)(vec2s v) {
  */
 CGLM_INLINE
 float
-glms_vec2_min(vec2s v) {
+glms_vec2_(min)(vec2s v) {
   return glm_vec2_min(v.raw);
 }
 
@@ -170,7 +170,7 @@ glms_vec2_(isinf)(vec2s v) {
  */
 CGLM_INLINE
 bool
-glms_vec2_isvalid(vec2s v) {
+glms_vec2_(isvalid)(vec2s v) {
   return glm_vec2_isvalid(v.raw);
 }
 
-- 
2.43.0

