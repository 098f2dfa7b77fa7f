-------------------------------- MODULE Space ---------------------------------
(* C18 .. C20: frustum, axis-aligned boxes, rays, spheres, planes.              *)
EXTENDS Camera

(* ---- C18 ---- *)
PlaneUnit(p) == LET q == VNorm(Take(p, 3)) IN Sel(Lt(q, Eps), Zeros(4), VDivs(p, q))
Row(A, k) == T([c \in 1..4 |-> A[c][k]])
(* left, right, bottom, top, near, far: a point is inside when -w <= x, y, z <= w in clip space *)
FrustumPlanes(A) == T([i \in 1..6 |-> LET k == (i + 1) \div 2 IN
    PlaneUnit(IF i % 2 = 1 THEN VAdd(Row(A, 4), Row(A, k)) ELSE VSub(Row(A, 4), Row(A, k)))])
ClipCorner == << <<-1, -1, -1>>, <<-1, 1, -1>>, <<1, 1, -1>>, <<1, -1, -1>>, <<-1, -1, 1>>, <<-1, 1, 1>>, <<1, 1, 1>>, <<1, -1, 1>> >>
Corner(inv, i) == LET c == MulV(inv, ClipCorner[i] \o <<1>>) IN VDivs(c, c[4])
(* the corner of a box farthest along a direction *)
Support(n, lo, hi) == Dot(n, T([i \in 1..Len(lo) |-> Sel(Gt(n[i], 0), hi[i], lo[i])]))
FrusC(e) ==
  LET A == M(e, 1, 4, 4)
      cor(i) == VO(e, 1, 4*(i - 1), 4)
      out(k, i, v) == WO(e, k, 4*(i - 1), v)
  IN CASE e.f = "plane_normalize" -> <<W(e, 1, PlaneUnit(V(e, 1, 4)))>>
       [] e.f = "frustum_planes"  -> LET P == FrustumPlanes(A) IN T([i \in 1..6 |-> out(2, i, P[i])])
       [] e.f = "frustum_corners" -> T([i \in 1..8 |-> out(2, i, Corner(A, i))])
       [] e.f = "frustum_center"  -> <<W(e, 2, T([r \in 1..4 |-> Div(Sum(T([i \in 1..8 |-> cor(i)[r]])), 8)]))>>
       [] e.f = "frustum_box"     -> LET B == M(e, 2, 4, 4) P == T([i \in 1..8 |-> MulV(B, cor(i))])
                                         c(r) == T([i \in 1..8 |-> P[i][r]]) IN
            <<W(e, 3, T([r \in 1..6 |-> IF r <= 3 THEN MinAll(c(r)) ELSE MaxAll(c(r - 3))]))>>
       [] e.f = "frustum_corners_at" ->
            LET d == Dist(Take(cor(7), 3), Take(cor(3), 3)) sc == Mul(d, Div(S(e, 2), S(e, 3))) IN
            T([i \in 1..4 |-> out(4, i, VAdd(cor(i), ScaleTo(VSub(cor(i + 4), cor(i)), sc)))])
       [] e.f = "aabb_frustum" -> LET lo == V(e, 1, 3) hi == VO(e, 1, 3, 3) IN
            <<RB(All3(T([i \in 1..6 |-> LET p == VO(e, 2, 4*(i - 1), 4) IN Ge(Support(Take(p, 3), lo, hi), Opp(p[4]))])))>>

(* ---- C19 ---- *)
FltMax == K("3.402823466e+38")
BoxC(e) ==
  LET n == e.n
      lo(k) == V(e, k, n)  hi(k) == VO(e, k, n, n)
      box(k, l, h) == W(e, k, l \o h)
      allin(P(_)) == All3(T([i \in 1..n |-> P(i)]))
      near(s) == T([i \in 1..n |-> Sel(Lt(s[i], lo(1)[i]), Sub(s[i], lo(1)[i]), Sel(Gt(s[i], hi(1)[i]), Sub(s[i], hi(1)[i]), 0))])
      ball(s) == RB(Le(VNorm2(near(s)), Sq(s[n + 1])))
  IN CASE e.f = "merge"  -> <<box(3, VMin(lo(1), lo(2)), VMax(hi(1), hi(2)))>>
       [] e.f = "crop"   -> <<box(3, VMax(lo(1), lo(2)), VMin(hi(1), hi(2)))>>
       [] e.f = "crop_until" -> <<box(4, VMin(lo(3), VMax(lo(1), lo(2))), VMax(hi(3), VMin(hi(1), hi(2))))>>
       [] e.f = "transform" ->
            LET A == M(e, 2, n + 1, n + 1)
                at(P(_, _), r) == Sum(<<A[n + 1][r]>> \o T([i \in 1..n |-> P(Mul(A[i][r], lo(1)[i]), Mul(A[i][r], hi(1)[i]))]))
            IN <<box(3, T([r \in 1..n |-> at(Min, r)]), T([r \in 1..n |-> at(Max, r)]))>>
       [] e.f = "invalidate" -> <<box(1, Const(n, FltMax), Const(n, Opp(FltMax)))>>
       [] e.f = "isvalid" -> <<RB(And3(Not3(Eq(MaxAll(lo(1)), FltMax)), Not3(Eq(MinAll(hi(1)), Opp(FltMax)))))>>
       [] e.f \in {"size", "diag"} -> <<R(Dist(lo(1), hi(1)))>>
       [] e.f = "sizev"   -> <<W(e, 2, VSub(hi(1), lo(1)))>>
       [] e.f = "radius"  -> <<R(Half(Dist(lo(1), hi(1))))>>
       [] e.f = "center"  -> <<W(e, 2, Map1(Half, VAdd(lo(1), hi(1))))>>
       [] e.f = "aabb"    -> <<RB(allin(LAMBDA i : And3(Le(lo(1)[i], hi(2)[i]), Ge(hi(1)[i], lo(2)[i]))))>>
       [] e.f = "contains" -> <<RB(allin(LAMBDA i : And3(Le(lo(1)[i], lo(2)[i]), Ge(hi(1)[i], hi(2)[i]))))>>
       [] e.f = "point"   -> LET p == V(e, 2, n) IN <<RB(allin(LAMBDA i : And3(Ge(p[i], lo(1)[i]), Le(p[i], hi(1)[i]))))>>
       [] e.f \in {"sphere", "circle"} -> <<ball(V(e, 2, n + 1))>>
       [] e.f = "zero"    -> <<box(1, Zeros(n), Zeros(n))>>
       [] e.f = "copy"    -> <<I(e, 2, IV(e, 1, 2*n))>>

(* ---- C20 ---- *)
TriEps == K("0.000001")
(* distance along the ray and barycentric coordinates of its crossing with the triangle's plane *)
RayTri(o, d, a, b, c) ==
  LET e1 == VSub(b, a) e2 == VSub(c, a) p == Cross(d, e2) det == Dot(e1, p) t == VSub(o, a) q == Cross(t, e1)
      u == Div(Dot(t, p), det) v == Div(Dot(d, q), det) s == Div(Dot(e2, q), det)
  IN [hit |-> All3(<<Ge(Abs(det), TriEps), Ge(u, 0), Le(u, 1), Ge(v, 0), Le(Add(u, v), 1), Gt(s, TriEps)>>), dist |-> s]
RaySph(o, d, s) ==
  LET dp == VSub(Take(s, 3), o) b == Dot(d, dp) r2 == Sq(s[4]) c == Sub(VNorm2(dp), r2)
      disc == Sub(r2, VNorm2(VSub(dp, VScale(d, b)))) h == Sqrt(Max(disc, 0))
      q == Sel(Ge(b, 0), Add(b, h), Sub(b, h)) z == Sel(Eq(q, 0), 0, Div(c, q))
      t1 == Min(q, z) t2 == Max(q, z)
  IN [hit |-> And3(Ge(disc, 0), Not3(And3(Lt(t1, 0), Lt(t2, 0)))), t |-> <<t1, t2>>]
RayOf(e) == IF e.f = "ray_sphere" THEN RaySph(V(e, 1, 3), V(e, 2, 3), V(e, 3, 4))
            ELSE RayTri(V(e, 1, 3), V(e, 2, 3), V(e, 3, 3), V(e, 4, 3), V(e, 5, 3))
UnitDir(d) == Must(Le(Abs(Sub(VNorm2(d), 1)), K("1e-5")))
RayC(e) ==
  LET s == V(e, 1, 4)
  IN CASE e.f = "ray_at" -> <<W(e, 4, VAdd(V(e, 1, 3), VScale(V(e, 2, 3), S(e, 3))))>>
       [] e.f = "ray_sphere" -> <<Free(e, 4, 1), Free(e, 5, 1)>> \o IF UnitDir(V(e, 2, 3)) THEN <<RB(RayOf(e).hit)>> ELSE << >>
       [] e.f = "ray_triangle" -> <<Free(e, 6, 1), RB(RayOf(e).hit)>>
       [] e.f = "sphere_radii" -> <<R(s[4])>>
       [] e.f = "sphere_transform" -> <<W(e, 3, Take(MulV(M(e, 2, 4, 4), Take(s, 3) \o <<1>>), 3) \o <<s[4]>>)>>
       [] e.f = "sphere_merge" -> LET o == V(e, 2, 4) d == Dist(Take(s, 3), Take(o, 3)) IN
            <<W(e, 3, T([i \in 1..4 |-> IF i < 4 THEN Half(Add(s[i], o[i])) ELSE MaxAll(<<Sum(<<d, s[4], o[4]>>), s[4], o[4]>>)]))>>
       [] e.f = "sphere_sphere" -> LET o == V(e, 2, 4) IN <<RB(Le(Dist2(Take(s, 3), Take(o, 3)), Sq(Add(s[4], o[4]))))>>
       [] e.f = "sphere_point" -> <<RB(Le(Dist2(Take(s, 3), V(e, 2, 3)), Sq(s[4])))>>
RayRel(e, alt) ==
  CASE e.f = "ray_sphere" -> (alt.ret = 1 /\ UnitDir(V(e, 2, 3))) =>
         LET t == RayOf(e).t IN Near(t[1], PV(e, alt, 4, 1)[1]) /\ Near(t[2], PV(e, alt, 5, 1)[1])
    [] e.f = "ray_triangle" -> (alt.ret = 1) => Near(RayOf(e).dist, PV(e, alt, 6, 1)[1])
    [] OTHER -> TRUE
===============================================================================
