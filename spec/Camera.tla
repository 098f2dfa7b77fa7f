-------------------------------- MODULE Camera --------------------------------
(* C14 .. C17: view matrices, projections, their decomposition, viewports.      *)
(* The handedness and depth convention of a call come from its name (e.n, e.m)  *)
(* or, for the unsuffixed functions, from the configuration (e.cc).             *)
EXTENDS Quat

(* ---- C14 ---- *)
ViewOf(lh, eye, dir, up) ==
  LET f == Normalize(dir)
      s == IF lh THEN Normalize(Cross(up, f)) ELSE Normalize(Cross(f, up))
      u == IF lh THEN Cross(f, s) ELSE Cross(s, f)
      b == IF lh THEN f ELSE VNeg(f)
  IN Affine4(Transpose(<<s, u, b>>), <<Opp(Dot(s, eye)), Opp(Dot(u, eye)), Opp(Dot(b, eye))>>)
Along(e) == LET eye == V(e, 1, 3) IN VSub(VAdd(eye, V(e, 2, 3)), eye)
ViewC(e) ==
  LET eye == V(e, 1, 3)
  IN CASE e.f = "lookat" -> <<WM(e, 4, ViewOf(LeftHanded(e), eye, VSub(V(e, 2, 3), eye), V(e, 3, 3)))>>
       [] e.f = "look"   -> <<WM(e, 4, ViewOf(LeftHanded(e), eye, Along(e), V(e, 3, 3)))>>
       [] e.f = "look_anyup" -> <<Free(e, 3, 16)>>
(* without an up vector: some rigid transform that puts the eye at the origin and looks along -z (right-handed) or z *)
ViewRel(e, alt) ==
  e.f = "look_anyup" =>
    LET eye == V(e, 1, 3)  A == PM(e, alt, 3, 4, 4)  f == Normalize(Along(e))  v == V(e, 2, 3)
        R3 == Transpose(Upper3(A))
        b == IF LeftHanded(e) THEN f ELSE VNeg(f)
        big == MaxAll(<<1, VNorm(eye)>>)
    IN (Must(Gt(Abs(v[2]), K("1e-2"))) \/ Must(Lt(Abs(Sub(VNorm2(v), 1)), K("1e-3")))) /\ Must(Lt(VNorm(eye), K("100"))) /\ Must(Lt(VNorm(v), K("100"))) =>
         /\ NearV(R3[3], b, K("1e-6"))
         /\ \A i \in 1..3 : \A j \in i..3 : Near(Widen(Dot(R3[i], R3[j]), 0, K("3e-4")), IF i = j THEN 1 ELSE 0)
         /\ Near(Widen(Det(R3), 0, K("3e-4")), 1)
         /\ \A i \in 1..3 : Near(Widen(Dot(R3[i], eye), K("1e-5"), K("1e-4")), Opp(A[4][i]))
         /\ \A j \in 1..4 : Near(A[j][4], IF j = 4 THEN 1 ELSE 0)

(* ---- C15 ---- *)
Sgn(lh) == IF lh THEN 1 ELSE -1
Times(s, x) == IF s = 1 THEN x ELSE Opp(x)
DepthCol(lh, zo, n, f) ==       \* the third row of the last two columns of a perspective projection
  LET q == Sub(f, n) s == Sgn(lh) IN
  IF zo THEN <<Times(s, Div(f, q)), Opp(Div(Mul(f, n), q))>>
  ELSE <<Times(s, Div(Add(f, n), q)), Opp(Div(Mul(2, Mul(f, n)), q))>>
Persp(lh, zo, xx, yy, cx, cy, n, f) ==
  LET d == DepthCol(lh, zo, n, f) s == Sgn(lh) IN
  << <<xx, 0, 0, 0>>, <<0, yy, 0, 0>>, <<cx, cy, d[1], s>>, <<0, 0, d[2], 0>> >>
FrustumM(lh, zo, l, r, b, t, n, f) ==
  LET w == Sub(r, l) h == Sub(t, b) s == Sgn(lh) IN
  Persp(lh, zo, Div(Mul(2, n), w), Div(Mul(2, n), h), Times(-s, Div(Add(r, l), w)), Times(-s, Div(Add(t, b), h)), n, f)
PerspM(lh, zo, fovy, aspect, n, f) == LET y == Div(1, Tan(Half(fovy))) IN Persp(lh, zo, Div(y, aspect), y, 0, 0, n, f)
OrthoM(lh, zo, l, r, b, t, n, f) ==
  LET w == Sub(r, l) h == Sub(t, b) q == Sub(f, n) s == Sgn(lh)
      z == IF zo THEN <<Times(s, Div(1, q)), Opp(Div(n, q))>> ELSE <<Times(s, Div(2, q)), Opp(Div(Add(f, n), q))>>
  IN << <<Div(2, w), 0, 0, 0>>, <<0, Div(2, h), 0, 0>>, <<0, 0, z[1], 0>>, <<Opp(Div(Add(r, l), w)), Opp(Div(Add(t, b), h)), z[2], 1>> >>
(* the box of view space seen: near and far are distances along the viewing direction *)
OrthoBox(lh, zo, lo, hi) ==
  IF lh THEN OrthoM(lh, zo, lo[1], hi[1], lo[2], hi[2], lo[3], hi[3])
  ELSE OrthoM(lh, zo, lo[1], hi[1], lo[2], hi[2], Opp(hi[3]), Opp(lo[3]))
Pi4 == K("0.785398163397448309616")
PerspDec(lh, zo, A) ==     \* <<near, far, top, bottom, left, right>>
  LET m22 == Times(-Sgn(lh), A[3][3])  m32 == A[4][3]
      n == IF zo THEN Div(m32, m22) ELSE Div(m32, Sub(m22, 1))
      f == Div(m32, Add(m22, 1))
      cx == Times(-Sgn(lh), A[3][1])  cy == Times(-Sgn(lh), A[3][2])
      at(c, d, m) == Div(Mul(n, Add(c, d)), m)
  IN <<n, f, at(cy, 1, A[2][2]), at(cy, -1, A[2][2]), at(cx, -1, A[1][1]), at(cx, 1, A[1][1])>>
ClipC(e) ==
  LET lh == LeftHanded(e) zo == DepthZO(e)
      s(k) == S(e, k)
      A == M(e, 1, 4, 4)
      D == PerspDec(lh, zo, A)
      lo == V(e, 1, 3) hi == VO(e, 1, 3, 3)
      pad(v, p, k) == T([i \in 1..3 |-> IF i >= k THEN Add(v[i], p) ELSE v[i]])
      out(k, i) == <<"W", e.a[k], <<D[i]>>>>
  IN CASE e.f = "frustum"     -> <<WM(e, 7, FrustumM(lh, zo, s(1), s(2), s(3), s(4), s(5), s(6)))>>
       [] e.f = "perspective" -> <<WM(e, 5, PerspM(lh, zo, s(1), s(2), s(3), s(4)))>>
       [] e.f = "perspective_default" -> <<WM(e, 2, PerspM(lh, zo, Pi4, s(1), K("0.01"), 100))>>
       [] e.f = "ortho"       -> <<WM(e, 7, OrthoM(lh, zo, s(1), s(2), s(3), s(4), s(5), s(6)))>>
       [] e.f = "ortho_aabb"  -> <<WM(e, 2, OrthoBox(lh, zo, lo, hi))>>
       [] e.f = "ortho_aabb_p"  -> <<WM(e, 3, OrthoBox(lh, zo, pad(lo, Opp(s(2)), 1), pad(hi, s(2), 1)))>>
       [] e.f = "ortho_aabb_pz" -> <<WM(e, 3, OrthoBox(lh, zo, pad(lo, Opp(s(2)), 3), pad(hi, s(2), 3)))>>
       [] e.f = "ortho_default" -> LET a == s(1) b == Div(1, a) IN
            <<W(e, 2, Sel(Ge(a, 1), Flat(OrthoM(lh, zo, Opp(a), a, -1, 1, -100, 100)), Flat(OrthoM(lh, zo, -1, 1, Opp(b), b, -100, 100))))>>
       [] e.f = "ortho_default_s" -> LET a == s(1) z == s(2) w == Mul(z, a) h == Div(z, a) n == Sub(Opp(z), 100) f == Add(z, 100) IN
            <<W(e, 3, Sel(Ge(a, 1), Flat(OrthoM(lh, zo, Opp(w), w, Opp(z), z, n, f)), Flat(OrthoM(lh, zo, Opp(z), z, Opp(h), h, n, f))))>>
(* ---- C16 ---- *)
       [] e.f = "perspective_resize" -> LET P == M(e, 2, 4, 4) IN IF Must(Eq(P[1][1], 0)) THEN <<>> ELSE <<WO(e, 2, 0, <<Div(P[2][2], s(1))>>)>>
       [] e.f = "persp_move_far" -> LET d == DepthCol(lh, zo, D[1], Add(D[2], s(2))) IN <<WO(e, 1, 10, <<d[1]>>), WO(e, 1, 14, <<d[2]>>)>>
       [] e.f = "persp_decomp"   -> <<out(2, 1), out(3, 2), out(4, 3), out(5, 4), out(6, 5), out(7, 6)>>
       [] e.f = "persp_decompv"  -> <<W(e, 2, D)>>
       [] e.f = "persp_decomp_x" -> <<out(2, 5), out(3, 6)>>
       [] e.f = "persp_decomp_y" -> <<out(2, 3), out(3, 4)>>
       [] e.f = "persp_decomp_z" -> <<out(2, 1), out(3, 2)>>
       [] e.f = "persp_decomp_near" -> <<out(2, 1)>>
       [] e.f = "persp_decomp_far"  -> <<out(2, 2)>>
       [] e.f = "persp_fovy"     -> <<R(Mul(2, Atan(Div(1, A[2][2]))))>>
       [] e.f = "persp_aspect"   -> <<R(Div(A[2][2], A[1][1]))>>
       [] e.f = "persp_sizes"    -> LET t == Mul(2, Tan(Half(s(2)))) a == Div(A[2][2], A[1][1]) IN
            <<W(e, 3, <<Mul(a, Mul(t, D[1])), Mul(t, D[1]), Mul(a, Mul(t, D[2])), Mul(t, D[2])>>)>>

(* ---- C17 ---- *)
ToWindow(zo, vp, ndc) ==
  LET h(x) == Half(Add(x, 1)) IN
  <<Add(Mul(h(ndc[1]), vp[3]), vp[1]), Add(Mul(h(ndc[2]), vp[4]), vp[2]), IF zo THEN ndc[3] ELSE h(ndc[3])>>
FromWindow(zo, vp, w) ==
  <<Sub(Div(Mul(2, Sub(w[1], vp[1])), vp[3]), 1), Sub(Div(Mul(2, Sub(w[2], vp[2])), vp[4]), 1), IF zo THEN w[3] ELSE Sub(Mul(2, w[3]), 1)>>
Persp3(A, p) == LET c == MulV(A, p \o <<1>>) IN T([i \in 1..3 |-> Div(c[i], c[4])])
ProjC(e) ==
  LET zo == DepthZO(e)  p == V(e, 1, 3)  A == M(e, 2, 4, 4)
  IN CASE e.f = "project"   -> <<W(e, 4, ToWindow(zo, V(e, 3, 4), Persp3(A, p)))>>
       [] e.f = "project_z" -> <<R(LET z == Persp3(A, p)[3] IN IF zo THEN z ELSE Half(Add(z, 1)))>>
       [] e.f = "unprojecti" -> <<W(e, 4, Persp3(A, FromWindow(zo, V(e, 3, 4), p)))>>
       [] e.f = "unproject" -> <<W(e, 4, Persp3(Inverse(A), FromWindow(zo, V(e, 3, 4), p)))>>
       [] e.f = "pickmatrix" -> LET c == V(e, 1, 2) z == V(e, 2, 2) vp == V(e, 3, 4)
              off(i) == Div(Sub(vp[i + 2], Mul(2, Sub(c[i], vp[i]))), z[i])
              s1 == Div(vp[3], z[1]) s2 == Div(vp[4], z[2])
              o1 == IF Must(Lt(Abs(s1), K("1e38"))) THEN 0 ELSE Undet(0)      \* (an overflowing scale times zero)
              o2 == IF Must(Lt(Abs(s2), K("1e38"))) THEN 0 ELSE Undet(0)
            IN IF Must(And3(Gt(z[1], 0), Gt(z[2], 0)))
               THEN <<WM(e, 4, << <<s1, o1, o1, o1>>, <<o2, s2, o2, o2>>, <<0, 0, 1, 0>>, <<off(1), off(2), 0, 1>> >>)>>
               ELSE <<>>
===============================================================================
