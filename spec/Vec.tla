--------------------------------- MODULE Vec ---------------------------------
(* Vector mathematics shared by all contracts. *)
EXTENDS Machine

Map1(Op(_), a) == T([i \in 1..Len(a) |-> Op(a[i])])
Map2(Op(_, _), a, b) == T([i \in 1..Len(a) |-> Op(a[i], b[i])])
Const(n, x) == T([i \in 1..n |-> x])
Zeros(n) == Const(n, 0)
Take(a, n) == T([i \in 1..n |-> a[i]])
VAdd(a, b) == T([i \in 1..Len(a) |-> Add(a[i], b[i])])
VSub(a, b) == T([i \in 1..Len(a) |-> Sub(a[i], b[i])])
VMul(a, b) == T([i \in 1..Len(a) |-> Mul(a[i], b[i])])
VDiv(a, b) == T([i \in 1..Len(a) |-> Div(a[i], b[i])])
VScale(a, s) == T([i \in 1..Len(a) |-> Mul(a[i], s)])
VDivs(a, s) == T([i \in 1..Len(a) |-> Div(a[i], s)])
VNeg(a) == T([i \in 1..Len(a) |-> Opp(a[i])])
VMin(a, b) == T([i \in 1..Len(a) |-> Min(a[i], b[i])])
VMax(a, b) == T([i \in 1..Len(a) |-> Max(a[i], b[i])])
VAbs(a) == T([i \in 1..Len(a) |-> Abs(a[i])])
Norm2(a) == T([i \in 1..Len(a) |-> Sq(a[i])])
VNorm2(a) == Sum(Norm2(a))
VNorm(a) == Sqrt(VNorm2(a))
Dist2(a, b) == VNorm2(VSub(a, b))
Dist(a, b) == Sqrt(Dist2(a, b))
Cross(a, b) == <<Sub(Mul(a[2], b[3]), Mul(a[3], b[2])),
                 Sub(Mul(a[3], b[1]), Mul(a[1], b[3])),
                 Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
Clamp(x, lo, hi) == Min(Max(x, lo), hi)
ClampU(x, lo, hi) == Sel(Le(lo, hi), Clamp(x, lo, hi), Undet(0))     \* lo > hi: not specified
Clamp01(x) == Clamp(x, 0, 1)
Eps == K("1.1920928955078125e-07")
Pi == K("3.14159265358979323846")
(* A vector counts as zero below the library's epsilon. *)
ScaleTo(a, s) ==       \* a * (s / |a|), zero for a (near) zero vector
    LET nn == VNorm(a) n == Len(a) IN
    Sel(Lt(nn, Eps), Zeros(n), T([i \in 1..n |-> Div(Mul(a[i], s), nn)]))
Normalize(a) == ScaleTo(a, 1)
Lerp1(x, y, t) == Add(x, Mul(t, Sub(y, x)))
VLerp(a, b, t) == T([i \in 1..Len(a) |-> Lerp1(a[i], b[i], t)])
Smooth(t) == Mul(Mul(t, t), Sub(3, Mul(2, t)))
Step(edge, x) == Sel(Lt(x, edge), 0, 1)
Smoothstep(e0, e1, x) == Smooth(Clamp01(Div(Sub(x, e0), Sub(e1, e0))))
ArcCos(x) == Acos(Clamp(x, -1, 1))
(* Rodrigues: v rotated by angle about the unit axis k *)
Rodrigues(v, ang, k) ==
    LET c == Cos(ang) s == Sin(ang) kv == Cross(k, v) d == Mul(Dot(k, v), Sub(1, c)) IN
    T([i \in 1..3 |-> Add(Add(Mul(v[i], c), Mul(kv[i], s)), Mul(k[i], d))])
Rot2(v, ang) == LET c == Cos(ang) s == Sin(ang) IN
    <<Sub(Mul(c, v[1]), Mul(s, v[2])), Add(Mul(s, v[1]), Mul(c, v[2]))>>
(* GLM_FLT_EPSILON: 1e-5 unless the program chose FLT_EPSILON (CGLM_USE_DEFAULT_EPSILON) or a value of its own *)
Tolerance(e) == CASE Field(e.cc, 2, 2) = 0 -> K("1e-5") [] Field(e.cc, 2, 2) = 1 -> Eps [] OTHER -> K("1e-3")
EqTol(x, y, tol) == Le(Abs(FSub(x, y)), tol)
===============================================================================
