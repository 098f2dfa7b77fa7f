#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (development-time; the output is committed)."""
import json, os
H="include/cglm/"
P=[]
def p(id,title,stmt,qtext,why,files,mech,over=("inputs","histories","configurations"),observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or ["return value and full argument memory after every public call (glm_, glmc_, glms_)"],hook_needed=None)))
VEC=[H+"vec2.h",H+"vec3.h",H+"vec4.h"]
p("C01","Vector arithmetic equals componentwise real arithmetic up to rounding",
 "For float vectors of 2, 3 and 4 components every arithmetic operation (add, sub, mul, div, scale and their scalar forms, the fused accumulate families such as addadd/muladd/minsub, negate, dot, cross, norms, distances, max/min/clamp, copies, fills, constructors, complex-number operations) writes in each component exactly what the operation's definition gives in real arithmetic, up to float rounding, and propagates NaN/infinity/division by zero like IEEE arithmetic. Components the operation does not define are left unchanged, and an accumulate operation uses the previous contents of the destination.",
 "all component values (including zeros, signed zeros, denormals, huge values, NaN/Inf where IEEE semantics define the result), all vector sizes, all APIs and SIMD paths, any preceding history of calls on the same storage",
 "the tests evaluate each function on one or two random vectors with a fixed value range, mostly in the default SIMD path, and compare with an epsilon",
 VEC,[("per-component code and SSE/NEON/WASM branches","include/cglm/vec4.h"),("scalar code","include/cglm/vec2.h, include/cglm/vec3.h")])
p("C02","Integer vectors compute with exact 32-bit integer arithmetic",
 "Every ivec2/ivec3/ivec4 operation (add, sub, mul, div, mod, scale, the accumulate families, cross, dot-like norms and distances, min/max/clamp, abs, comparisons, copies) yields in every component the exact integer result whenever that result and its intermediate results are representable, and division/modulo truncate toward zero like C. Norms and float distances are the correctly rounded-up-to-tolerance real values.",
 "all 32-bit integer components for which the C operation is defined, including negative values, INT_MIN/INT_MAX-adjacent values and zero",
 "tests use a handful of small non-negative constants per function",
 [H+"ivec2.h",H+"ivec3.h",H+"ivec4.h"],[("integer component code","include/cglm/ivec*.h")])
p("C03","Vector comparisons, classification, rounding and swizzles are exact",
 "Equality predicates (exact and with epsilon, against scalars, all-equal), NaN/Inf/validity tests, sign, abs, floor, fract, ceil-free modulo, componentwise step/max/min reductions, sqrt, swizzles, and the flips/complement selections return exactly the documented classification for every component. A predicate over a vector holds iff it holds for every (or, where so documented, any) component, whichever component decides.",
 "all component values incl. NaN, +-Inf, +-0, values at and next to the epsilon threshold, all 256 swizzle masks, each deciding component position",
 "tests use one example per predicate and never vary which component breaks it",
 [H+"vec2-ext.h",H+"vec3-ext.h",H+"vec4-ext.h",H+"vec2.h",H+"vec3.h",H+"vec4.h",H+"util.h"],[("predicates","include/cglm/vec*-ext.h"),("swizzle","include/cglm/vec3.h, include/cglm/vec4.h")])
p("C04","Scalar helpers and interpolation are exact at ends and never leave the range",
 "Scalar helpers (radians/degrees, sign, min/max/clamp, swap, powers, wrap-free percent, equality with epsilon) and the lerp/mix/step/smooth/smoothstep/smoothinterp families, scalar and per vector size, equal their defining formulas; the clamped variants treat t outside [0,1] as the nearest end and smoothstep is 0 at or below the lower edge and 1 at or above the upper edge. Percentages are relative to the given start and end, and the unclamped/clamped variants differ only outside the unit interval.",
 "all parameters t (inside, at and outside the ends), all edges/endpoints including equal, reversed and negative ranges, all vector sizes",
 "tests sample one t per function and rarely t outside [0,1] or reversed ranges",
 [H+"util.h",H+"vec2.h",H+"vec3.h",H+"vec4.h"],[("interpolation formulas","include/cglm/util.h")])
p("C05","Geometric vector operations satisfy their geometry",
 "Normalisation returns the unit vector in the same direction and the zero vector for (near-)zero input; scale_as gives a parallel vector of the requested length; angle, projection, reflection, refraction (including the total-internal-reflection result), faceforward, orthogonal vector, normalised cross product, center and 2D/3D rotation about an arbitrary axis return the geometrically defined vector or angle. Rotation preserves length and handedness and accepts a non-unit axis.",
 "all vectors including near-zero, parallel, anti-parallel, perpendicular, axis-aligned and very large/small ones; all angles including negative and beyond a full turn",
 "tests check random vectors from a narrow range and one axis; degenerate directions and large angles are untested",
 VEC,[("normalize/rotate/proj/reflect/refract","include/cglm/vec3.h, include/cglm/vec4.h, include/cglm/vec2.h")])
p("C06","Matrix algebra follows the column-major matrix ring laws",
 "Products, matrix-vector products, multi-matrix products, transposes, scaling, row/column swaps, traces, quadratic forms, identity/zero/make/copy/pick/insert for square and all rectangular matrix types equal the mathematical column-major definition element by element, up to rounding. Products are taken in the order written and row/column indices address the documented row/column.",
 "all element values, all matrix shapes (2,3,4 and 2x3..4x3), all row/column index pairs, any number of factors or array length",
 "tests use one fixed or random matrix per function; index pairs, lengths and structured (sparse, triangular, non-affine) matrices are not varied",
 [H+"mat2.h",H+"mat3.h",H+"mat4.h",H+"mat2x3.h",H+"mat2x4.h",H+"mat3x2.h",H+"mat3x4.h",H+"mat4x2.h",H+"mat4x3.h"],
 [("scalar products","include/cglm/mat*.h"),("SSE/AVX products","include/cglm/simd/sse2/mat4.h, include/cglm/simd/avx/mat4.h")])
p("C07","Determinants and inverses are correct for every invertible matrix",
 "The determinant of a 2x2, 3x3 or 4x4 matrix equals the mathematical determinant, and the inverse equals adjugate/determinant, so that multiplying it with the matrix on either side gives the identity up to rounding scaled by conditioning. The fast inverse agrees with the inverse up to its documented approximation.",
 "all invertible matrices, including non-affine, permuted, triangular, badly scaled ones and ones with zero leading minors",
 "tests invert a few random affine-like matrices",
 [H+"mat2.h",H+"mat3.h",H+"mat4.h",H+"simd/sse2/mat4.h"],[("cofactor expansion","include/cglm/mat4.h, include/cglm/simd/sse2/mat4.h")])
p("C08","3D affine transforms compose exactly as matrix products",
 "Translate, scale, rotate (about axes, arbitrary axes, pivots), uniform/non-uniform scale queries, look of the make/in-place/to-destination variants, the pre- and post-multiplying families and the optimised affine/rotation products and inverse all equal the matrix product with the corresponding elementary transform in the documented order. Decomposition into translation, rotation and scale recomposes to the original matrix.",
 "all affine matrices (identity-like and general), all vectors, axes of any non-zero length, all angles, all pivots",
 "tests apply each transform to one or two matrices, mostly identity or a fixed transform, where pre- and post-multiplication coincide",
 [H+"affine.h",H+"affine-pre.h",H+"affine-post.h",H+"affine-mat.h",H+"simd/sse2/affine.h",H+"simd/avx/affine.h"],[("affine kernels","include/cglm/affine*.h"),("SIMD kernels","include/cglm/simd/*/affine.h")])
p("C09","2D affine transforms compose exactly as 3x3 matrix products",
 "The 2D translate/scale/rotate families (make, in place, to destination, x/y only, pre- and post-multiplied) equal the product of the given 3x3 matrix with the elementary transform in the documented order, and touch only the elements that product changes. Texture-transform constructors build the documented scale-rotate-translate matrix.",
 "all 3x3 matrices, vectors and angles",
 "tests use a few fixed points and matrices",
 [H+"affine2d.h",H+"affine2d-post.h",H+"mat3.h",H+"mat4.h"],[("2D kernels","include/cglm/affine2d*.h")])
p("C10","Quaternion algebra follows Hamilton's rules",
 "Construction from components, axis and angle or two vectors, product (Hamilton order), conjugate, inverse, norm, dot, normalisation (identity for zero input), add/sub, real/imaginary parts, axis/angle extraction and quaternion-vector rotation satisfy the algebraic definitions for every quaternion, unit or not as documented. The product's norm is the product of the norms and q times its inverse is the identity.",
 "all quaternions (unit, non-unit, zero, negated, near-identity), all axes and angles, parallel and anti-parallel vector pairs",
 "tests use a few random unit quaternions and axis rotations",
 [H+"quat.h",H+"simd/sse2/quat.h"],[("quaternion kernels","include/cglm/quat.h, include/cglm/simd/*/quat.h")])
p("C11","Quaternion, matrix and axis-angle rotations denote the same rotation",
 "Converting a unit quaternion to a 3x3/4x4 matrix (or its transpose) gives the rotation matrix of that quaternion, and converting a rotation matrix back gives the same rotation up to quaternion sign, in every branch of the extraction. Rotating vectors and matrices by a quaternion (in place, about a point, look and orientation quaternions) equals applying the corresponding matrix.",
 "all rotations, in particular trace-negative ones with each diagonal dominant and half-turns about any axis; all matrices and pivots",
 "tests convert a few rotations; the three negative-trace branches and half turns are hardly reached",
 [H+"quat.h",H+"mat3.h",H+"mat4.h"],[("quat<->mat","include/cglm/quat.h, include/cglm/mat3.h, include/cglm/mat4.h")])
p("C12","Quaternion interpolation stays on the right arc",
 "lerp/lerpc/nlerp/slerp and the longest-path variant return the start at t=0 and the end at t=1 as rotations, interpolate along the documented (shortest or longest) arc with the documented parameterisation, and return unit quaternions when documented. slerp moves at constant angular speed between its endpoints, including for nearly equal and nearly opposite operands.",
 "all pairs of unit quaternions (equal, nearly equal, opposite sign, orthogonal), all t in and around [0,1]",
 "tests interpolate one or two pairs at t=0.5",
 [H+"quat.h"],[("slerp branches","include/cglm/quat.h")])
p("C13","Euler-angle conversions are consistent for all six orders",
 "For each rotation order the matrix built from Euler angles equals the product of the elementary axis rotations in that order, the quaternion built from the same angles denotes the same rotation (right- and left-handed forms), and extracting angles from a rotation matrix yields angles that rebuild it. The by-order dispatchers agree with the order-specific functions.",
 "all angle triples including negative, beyond pi and at or near gimbal lock; all orders; both handedness forms",
 "tests use fixed small angles such as 0, 45, 90 degrees for a few orders",
 [H+"euler.h",H+"handed/euler_to_quat_rh.h",H+"handed/euler_to_quat_lh.h"],[("order kernels","include/cglm/euler.h")],observe=None)
p("C14","View matrices map eye and axes as documented",
 "lookat/look/look_anyup, for right- and left-handed systems, give a rigid transform that maps the eye to the origin, the viewing direction to -Z (right-handed) or +Z (left-handed), and the up vector into the upper half of the YZ plane. The default functions are the variant selected by the configuration.",
 "all eyes, directions of any length, up vectors not parallel to the direction, both handedness configurations",
 "tests compare a couple of fixed cameras",
 [H+"cam.h",H+"clipspace/view_rh.h",H+"clipspace/view_lh.h"],[("view kernels","include/cglm/clipspace/view_*.h")])
p("C15","Projections map the view volume onto the clip volume",
 "Perspective, frustum, infinite/default/resized and orthographic projections (including the AABB and padded forms) map the corners of the requested view volume exactly to the corners of the clip volume of the selected convention (depth 0..1 or -1..1, left- or right-handed), up to rounding, with the documented element layout. The unsuffixed functions are the variant selected by the configuration.",
 "all valid near/far/extents/fov/aspect values, aspect below and above 1, all four clip-space conventions",
 "tests check a few matrices entries for a couple of fixed parameters",
 [H+"cam.h",H+"clipspace/persp_rh_no.h",H+"clipspace/persp_rh_zo.h",H+"clipspace/persp_lh_no.h",H+"clipspace/persp_lh_zo.h",H+"clipspace/ortho_rh_no.h",H+"clipspace/ortho_rh_zo.h",H+"clipspace/ortho_lh_no.h",H+"clipspace/ortho_lh_zo.h"],
 [("projection kernels","include/cglm/clipspace/*.h")])
p("C16","Perspective decomposition inverts construction; edits act on the parameters",
 "Decomposing a perspective matrix (all planes, per axis, near, far, fov, aspect, plane sizes) returns the parameters it was built from, in every clip-space convention, and moving the far plane or resizing the aspect gives the matrix of the changed parameters leaving the other elements as they are. All decomposition entry points agree with each other.",
 "all valid frustum/perspective parameters (off-center too), all four conventions, sequences of edits",
 "tests decompose one or two matrices and skip several entry points",
 [H+"cam.h"]+[H+"clipspace/persp_%s.h"%c for c in ("rh_no","rh_zo","lh_no","lh_zo")]+[H+"clipspace/persp.h"],[("decomp kernels","include/cglm/clipspace/persp*.h")])
p("C17","Projection to the viewport and unprojection are mutual inverses",
 "project maps a point through matrix and perspective divide into the viewport rectangle with depth in the configured range, project_z gives the same depth, and unproject (with the matrix or its given inverse) maps it back to the original point, for either depth convention. The pick matrix maps the pick region onto the full clip square and leaves its destination alone for an empty region.",
 "all points with non-zero clip w, all invertible matrices, all viewports (offset, non-square), both depth conventions",
 "tests project one point with one camera and a full-size viewport at the origin",
 [H+"project.h",H+"clipspace/project_no.h",H+"clipspace/project_zo.h"],[("project kernels","include/cglm/clipspace/project_*.h")])
p("C18","Frustum planes, corners and culling agree with the matrix",
 "Plane extraction yields normalised inward planes in the documented order such that a point is inside all six iff its clip coordinates are within the clip cube; corners are the inverse images of the cube corners in the documented order; center, box and split corners are their mean, bounds and interpolation. A box/frustum test never rejects a box that touches the frustum's plane intersection and rejects every box wholly behind one plane; plane normalisation keeps the plane.",
 "all view-projection matrices, all boxes including touching ones and each plane as the deciding one",
 "tests hardly cover frustum.h; culling is never checked per plane",
 [H+"frustum.h",H+"plane.h",H+"box.h"],[("planes/corners","include/cglm/frustum.h"),("p-vertex test","include/cglm/box.h")])
p("C19","Axis-aligned boxes behave as interval sets (3D and 2D)",
 "Merge is the smallest enclosing box, crop the intersection, crop_until the clamped intersection; overlap, contains and point predicates are exact set relations with closed bounds, sphere/circle overlap is exact distance comparison; transform gives the tight box of the transformed corners; size, radius, center, validity, invalidation and copies follow the definitions.",
 "all boxes (degenerate, touching, nested, disjoint on any one axis, invalidated), all affine matrices, points and spheres at boundaries",
 "3D box code has almost no tests; 2D tests use single examples; touching cases and each deciding axis are not varied",
 [H+"box.h",H+"aabb2d.h"],[("interval logic","include/cglm/box.h, include/cglm/aabb2d.h")])
p("C20","Ray, sphere and plane queries return the exact incidence",
 "Ray-sphere intersection reports a hit iff the ray meets the sphere in front of or around the origin, with the two parameters ordered and lying on the sphere; ray-triangle reports a hit iff the ray crosses the triangle at positive distance and then returns that distance; ray_at evaluates the ray. Sphere overlap and containment are exact, a merged sphere contains both, and transforms move the center only.",
 "all rays (any origin incl. inside, behind, tangent), all spheres and triangles of either orientation, misses on each edge",
 "tests use a few axis-aligned rays",
 [H+"ray.h",H+"sphere.h",H+"plane.h"],[("Moller-Trumbore","include/cglm/ray.h"),("stable quadratic","include/cglm/ray.h")])
p("C21","Curves and easing functions equal their defining formulas",
 "Cubic Bezier, Hermite and matrix-based curve evaluation equal the defining polynomials for every parameter; the de Casteljau solver returns a parameter in [0,1] at which a monotone curve has the requested value; every easing function equals its defining formula on both halves and meets 0 at 0 and 1 at 1.",
 "all parameters, control values and both sides and the exact point of every branch",
 "tests evaluate Bezier at random t only; the easing functions are untested",
 [H+"bezier.h",H+"curve.h",H+"ease.h"],[("formulas","include/cglm/ease.h, include/cglm/bezier.h, include/cglm/curve.h")])
p("C22","Perlin noise is the classic gradient noise of its lattice",
 "2D/3D/4D noise equals classic Perlin noise with the polynomial permutation lattice: it is zero at lattice points, depends only on the point, repeats with period 289 along each axis, is continuous across cell borders, and stays bounded.",
 "all points incl. negative, lattice, cell-border and large coordinates",
 "tests compare a handful of reference points",
 [H+"noise.h"],[("gradient/permutation macros","include/cglm/noise.h")])
p("C23","The call and struct APIs are the same functions as the inline API",
 "For every operation offered by the compiled-library API or by the struct API, calling it with the same values yields the same result values and return value as the inline array function of that name, including operations whose destination is also an input, output parameters, array arguments and default constants. No struct or call function permutes, drops or swaps arguments. This holds from C and from C++, and under every namespace option of the struct API (namespace omitted, another namespace, a suffix).",
 "every function offered by more than one API and all argument values (distinct per argument)",
 "the call API is tested through the same few inputs and much of the struct API is not tested at all",
 ["include/cglm/call.h","include/cglm/struct.h","src/mat4.c","src/vec3.c","src/quat.c","include/cglm/struct/vec3.h","include/cglm/struct/mat4.h","include/cglm/struct/quat.h"],[("delegating wrappers","src/*.c, include/cglm/struct/*.h")])
p("C24","Build configuration does not change results",
 "Whatever instruction set and configuration macros the library is built with (no SIMD, SSE2, SSE3/SSE4 dot products, AVX, FMA, unaligned mode), every operation satisfies the same specification, so results agree up to rounding; clip-control macros change only the unsuffixed camera/projection functions, selecting the documented variant; the tolerance macros change only comparisons with the tolerance.",
 "every operation in every build configuration available, all argument values",
 "the test suite is built and run in one configuration only",
 [H+"simd/intrin.h",H+"simd/x86.h",H+"simd/sse2/mat4.h",H+"simd/avx/mat4.h",H+"simd/sse2/affine.h",H+"simd/avx/affine.h",H+"simd/sse2/quat.h",H+"common.h"],[("#if dispatch","include/cglm/*.h"),("SIMD kernels","include/cglm/simd")])
p("C25","Operations tolerate the documented and customary argument aliasing",
 "Where the destination may be the same object as an input (matrix products, vector and quaternion operations, transforms applied in place, boxes, and the other operations that tolerate it today), the result is the same as when the destination is separate. Passing the same object for several inputs is always allowed.",
 "every operation with every aliasing pattern of its same-typed arguments that is supported, all values",
 "tests call nearly everything with distinct objects",
 [H+"mat4.h",H+"vec3.h",H+"quat.h",H+"affine.h",H+"box.h"],[("read-before-write order, temporaries","include/cglm/*.h")])
p("C26","Operations write only their destination and keep no hidden state",
 "A call changes only the objects documented as its destination (never an input-only argument, padding or neighbouring storage), its result depends only on its arguments and prior destination contents, not on earlier calls, and concurrent calls on distinct objects do not affect each other. Unaligned-mode builds accept any float-aligned storage.",
 "every operation, all storage layouts permitted by the types' alignment, any call history, any interleaving of threads on distinct data",
 "tests check outputs only, not what else was written, and never call from several threads",
 [H+"mat3.h",H+"vec3.h",H+"affine.h",H+"simd/x86.h",H+"simd/sse2/mat3.h"],[("3-float load/store","include/cglm/simd/x86.h"),("stateless inline functions","include/cglm/*.h")],over=("inputs","histories","configurations","schedules"))
p("C27","Printed output shows every element in its place",
 "The print functions for vectors, integer vectors, quaternions, matrices and boxes write, in order (matrices row by row), text that reads back as each element within the print precision, with a header naming kind and size, in every size of number. Colour escapes, where enabled, only surround text and are switched off again. Printing changes nothing else.",
 "all element values (large, negative, mixed magnitudes), all printable types",
 "io functions are not tested",
 [H+"io.h","src/io.c"],[("format loops","include/cglm/io.h")],over=("inputs",),observe=["bytes written to the stream"])
p("C28","Types are exactly their components, laid out and aligned as documented",
 "In every build configuration each type is exactly its components in column order with nothing between or around them; the struct type of a kind has the same size, alignment and layout as its array type, and every name of a component (raw, x y z w, r g b a, u v, s t, imag/real, mRC, col) denotes the same storage. vec4, versor, mat2 and matrices of 4-row columns are aligned to 16 bytes and mat4 to 32 with AVX (so SIMD access to any object is legal), all other types to their component; with CGLM_ALL_UNALIGNED no type asks for more than its component's alignment.",
 "every type of both APIs, every component and name, every build configuration; every placement of objects in memory",
 "tests are built in one configuration and never look at sizes, alignments or offsets",
 [H+"types.h",H+"types-struct.h",H+"common.h"],[("typedefs and CGLM_ALIGN_IF / CGLM_ALIGN_MAT","include/cglm/types.h"),("unions","include/cglm/types-struct.h")],over=("configurations",),observe=["sizeof, _Alignof and component offsets of every type", "values read and written through each name"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
