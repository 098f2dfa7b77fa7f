--------------------------------- MODULE Quat ---------------------------------
(* C10, C11, C12: quaternions <<x, y, z, w>>.                                  *)
EXTENDS Affine
QId == <<0, 0, 0, 1>>
Im(q) == <<q[1], q[2], q[3]>>
Hamilton(p, q) ==
  LET u == Im(p) v == Im(q) x == Cross(u, v) IN
  T([i \in 1..3 |-> Add(Add(Mul(p[4], v[i]), Mul(q[4], u[i])), x[i])]) \o <<Sub(Mul(p[4], q[4]), Dot(u, v))>>
QConj(q) == <<Opp(q[1]), Opp(q[2]), Opp(q[3]), q[4]>>
QUnit(q) == LET d == VNorm2(q) IN Sel(Le(d, 0), QId, VDivs(q, Sqrt(d)))      \* identity for the zero quaternion
Half(x) == Mul(x, K("0.5"))
AxisAngle(a, axis) == LET k == Normalize(axis) s == Sin(Half(a)) IN VScale(k, s) \o <<Cos(Half(a))>>
(* the rotation matrix of a unit quaternion *)
QMat(q) ==
  LET x == q[1] y == q[2] z == q[3] w == q[4]
      dbl(p) == Mul(2, p)
      dia(a, b) == Sub(1, dbl(Add(Sq(a), Sq(b))))
      plus(a, b, c, d) == dbl(Add(Mul(a, b), Mul(c, d)))
      minus(a, b, c, d) == dbl(Sub(Mul(a, b), Mul(c, d)))
  IN << <<dia(y, z), plus(x, y, w, z), minus(x, z, w, y)>>,
        <<minus(x, y, w, z), dia(x, z), plus(y, z, w, x)>>,
        <<plus(x, z, w, y), minus(y, z, w, x), dia(x, y)>> >>
UnitTol == K("1e-6")                      \* a float unit quaternion is unit only to this
QMatT(q) == LET A == QMat(q) IN T([j \in 1..3 |-> T([i \in 1..3 |-> Widen(A[j][i], 0, UnitTol)])])
IsUnit(v) == Lt(Abs(Sub(VNorm2(v), 1)), K("1e-5"))
(* u and d denote the same rotation: equal up to sign *)
NearV(a, b, tol) == \A i \in 1..Len(a) : Near(Widen(a[i], 0, tol), b[i])
NearM(A, B, tol) == \A j \in 1..Len(A) : NearV(A[j], B[j], tol)
(* q is a unit quaternion of the rotation R *)
Represents(q, R3, tol) == Near(Widen(VNorm2(q), 0, tol), 1) /\ NearM(QMat(q), R3, tol)

QuatC(e) ==
  LET p == V(e, 1, 4)  q == V(e, 2, 4)
  IN CASE e.f = "identity"       -> <<W(e, 1, QId)>>
       [] e.f = "identity_array" -> <<W(e, 1, T([i \in 1..(4 * e.a[2]) |-> IF i % 4 = 0 THEN 1 ELSE 0]))>>
       [] e.f = "init"           -> <<W(e, 1, <<S(e, 2), S(e, 3), S(e, 4), S(e, 5)>>)>>
       [] e.f = "quat"           -> <<W(e, 1, AxisAngle(S(e, 2), <<S(e, 3), S(e, 4), S(e, 5)>>))>>
       [] e.f = "quatv"          -> <<W(e, 1, AxisAngle(S(e, 2), V(e, 3, 3)))>>
       [] e.f \in {"copy", "make"} -> <<W(e, 2, p)>>
       [] e.f = "norm"           -> <<R(VNorm(p))>>
       [] e.f = "dot"            -> <<R(Dot(p, q))>>
       [] e.f = "normalize"      -> <<W(e, 1, QUnit(p))>>
       [] e.f = "normalize_to"   -> <<W(e, 2, QUnit(p))>>
       [] e.f = "conjugate"      -> <<W(e, 2, QConj(p))>>
       [] e.f = "inv"            -> <<W(e, 2, VDivs(QConj(p), VNorm2(p)))>>
       [] e.f = "add"            -> <<W(e, 3, VAdd(p, q))>>
       [] e.f = "sub"            -> <<W(e, 3, VSub(p, q))>>
       [] e.f = "mul"            -> <<W(e, 3, Hamilton(p, q))>>
       [] e.f = "real"           -> <<R(p[4])>>
       [] e.f = "imag"           -> <<W(e, 2, Im(p))>>
       [] e.f \in {"imagn", "axis"} -> <<W(e, 2, Normalize(Im(p)))>>
       [] e.f = "imaglen"        -> <<R(VNorm(Im(p)))>>
       [] e.f = "angle"          -> <<R(Mul(2, Atan2(VNorm(Im(p)), p[4])))>>
       [] e.f = "from_vecs"      -> LET a == V(e, 1, 3) b == V(e, 2, 3) c == Dot(a, b) IN
             IF ~(Must(IsUnit(a)) /\ Must(IsUnit(b))) \/ ~Must(Ge(c, K("-0.99998"))) THEN <<Free(e, 3, 4)>>
             ELSE <<W(e, 3, Sel(Ge(c, K("0.99999")), QId, QUnit(Cross(a, b) \o <<Add(1, c)>>)))>>
(* the quaternion from a to b turns a into b, also when they are opposite *)
QuatRel(e, alt) ==
  e.f = "from_vecs" =>
    LET a == V(e, 1, 3) b == V(e, 2, 3) q == PV(e, alt, 3, 4) IN
    Must(IsUnit(a)) /\ Must(IsUnit(b)) => Near(Widen(VNorm2(q), 0, K("1e-4")), 1) /\ NearV(MulV(QMat(q), a), b, K("1e-2"))

(* ---- C11 ---- *)
LookDir(dir, up) ==      \* the basis of the orientation looking along dir
  LET b == VNeg(Normalize(dir)) r == Normalize(Cross(up, b)) IN <<r, Cross(b, r), b>>
QRotC(e) ==
  LET q == V(e, 1, 4)
  IN CASE e.f = "mat_quat" -> <<Free(e, 2, 4)>>
       [] e.f \in {"for"}  -> <<Free(e, 3, 4)>>
       [] e.f = "forp"     -> <<Free(e, 4, 4)>>
       [] e.f = "mat3"     -> <<WM(e, 2, QMatT(q))>>
       [] e.f = "mat3t"    -> <<WM(e, 2, Transpose(QMatT(q)))>>
       [] e.f = "mat4"     -> <<WM(e, 2, Mat4of3(QMatT(q)))>>
       [] e.f = "mat4t"    -> <<WM(e, 2, Mat4of3(Transpose(QMatT(q))))>>
       [] e.f = "look"     -> LET Rt == Transpose(QMatT(V(e, 2, 4))) IN <<WM(e, 3, Affine4(Rt, VNeg(MulV(Rt, V(e, 1, 3)))))>>
       [] e.f = "rotatev"  -> LET A == QMat(QUnit(q)) IN <<W(e, 3, MulV(T([j \in 1..3 |-> T([i \in 1..3 |-> Widen(A[j][i], 0, UnitTol)])]), V(e, 2, 3)))>>
       [] e.f = "rotate"   -> <<WM(e, 3, MMul(M(e, 1, 4, 4), Mat4of3(QMatT(V(e, 2, 4)))))>>
       [] e.f = "rotate_at" -> LET p == V(e, 3, 3) IN
             <<WM(e, 1, MMul(MMul(MMul(M(e, 1, 4, 4), Tr4(p)), Mat4of3(QMatT(V(e, 2, 4)))), Tr4(VNeg(p))))>>
       [] e.f = "rotate_atm" -> <<WM(e, 1, Pivoted(V(e, 3, 3), Mat4of3(QMatT(V(e, 2, 4)))))>>
Orients(q, dir, up) ==   \* q is the orientation looking along dir, when dir and up determine one
  LET c == Cross(Normalize(up), Normalize(dir)) IN
  Must(Gt(VNorm(dir), K("1e-6"))) /\ Must(Gt(VNorm(up), K("2e-5"))) /\ Must(Gt(VNorm(c), K("2e-2"))) => Represents(q, LookDir(dir, up), K("2e-5"))
QRotRel(e, alt) ==
  CASE e.f = "mat_quat" -> Represents(PV(e, alt, 2, 4), Upper3(M(e, 1, e.n, e.n)), K("3e-6"))
    [] e.f = "for"      -> Orients(PV(e, alt, 3, 4), V(e, 1, 3), V(e, 2, 3))
    [] e.f = "forp"     -> Orients(PV(e, alt, 4, 4), VSub(V(e, 2, 3), V(e, 1, 3)), V(e, 3, 3))
    [] OTHER -> TRUE

(* ---- C12 ---- *)
QIntC(e) ==
  LET a == V(e, 1, 4)  b == V(e, 2, 4)  t == S(e, 3)
  IN CASE e.f = "lerp"  -> <<W(e, 4, VLerp(a, b, t))>>
       [] e.f = "lerpc" -> <<W(e, 4, VLerp(a, b, Clamp01(t)))>>
       [] e.f \in {"nlerp", "slerp", "slerp_longest"} -> <<Free(e, 4, 4)>>
(* The arc from a to b at parameter t: sin((1-t)h)/sin(h) a + sin(t h)/sin(h) b with cos(h) = c.  The float   *)
(* evaluation of 1 - c^2 loses accuracy like 1/sin^2, which the last factor accounts for.                       *)
Arc(a, b, c, t) ==
  LET h == Acos(c)
      loss == Widen(1, Div(K("2e-6"), Sub(1, Sq(c))), 0)
      w1 == Mul(SinRatio(Sub(1, t), h), loss)
      w2 == Mul(SinRatio(t, h), loss)
  IN T([i \in 1..4 |-> Add(Mul(w1, a[i]), Mul(w2, b[i]))])
QIntRel(e, alt) ==
  LET a == V(e, 1, 4)  b == V(e, 2, 4)  t == S(e, 3)  d == PV(e, alt, 4, 4)
      c == Dot(a, b)
      tol == K("2e-6")
      sn == Sub(1, Sq(c))                          \* sin^2 of the angle between them
      ends == Ge(Abs(c), 1)
      flat == Lt(sn, K("1e-6"))
      short(neg) == LET a1 == IF neg THEN VNeg(a) ELSE a  c1 == IF neg THEN Opp(c) ELSE c IN
         \/ May(flat) /\ NearV(VLerp(a1, b, t), d, tol)
         \/ May(Not3(flat)) /\ NearV(Arc(a1, b, c1, t), d, tol)
      long(neg) == LET a1 == IF neg THEN VNeg(a) ELSE a  c1 == IF neg THEN Opp(c) ELSE c IN
         \/ May(flat)                              \* the longest arc between (nearly) equal rotations has no axis
         \/ NearV(Arc(a1, b, c1, t), d, tol)
  IN CASE e.f = "nlerp" -> (May(Ge(c, 0)) /\ NearV(QUnit(VLerp(a, b, t)), d, tol))
                        \/ (May(Le(c, 0)) /\ NearV(QUnit(VLerp(a, VNeg(b), t)), d, tol))
       [] e.f = "slerp" -> (May(ends) /\ NearV(a, d, 0))
                        \/ (May(Not3(ends)) /\ May(Lt(c, 0)) /\ short(TRUE))
                        \/ (May(Not3(ends)) /\ May(Ge(c, 0)) /\ short(FALSE))
       [] e.f = "slerp_longest" -> (May(ends) /\ NearV(a, d, 0))
                        \/ (May(Not3(ends)) /\ May(Lt(c, 0)) /\ long(FALSE))
                        \/ (May(Not3(ends)) /\ May(Ge(c, 0)) /\ long(TRUE))
       [] OTHER -> TRUE

(* ---- C13: Euler angles ---- *)
AxisRot(k, a) == CASE k = 0 -> RX(a) [] k = 1 -> RY(a) [] k = 2 -> RZ(a)
AxisQuat(k, a) == LET s == Sin(Half(a)) c == Cos(Half(a)) IN CASE k = 0 -> <<s, 0, 0, c>> [] k = 1 -> <<0, s, 0, c>> [] k = 2 -> <<0, 0, s, c>>
Order(f) == CASE f \in {"euler", "euler_xyz", "euler_xyz_quat"} -> <<0, 1, 2>> [] f \in {"euler_xzy", "euler_xzy_quat"} -> <<0, 2, 1>>
              [] f \in {"euler_yxz", "euler_yxz_quat"} -> <<1, 0, 2>> [] f \in {"euler_yzx", "euler_yzx_quat"} -> <<1, 2, 0>>
              [] f \in {"euler_zxy", "euler_zxy_quat"} -> <<2, 0, 1>> [] f \in {"euler_zyx", "euler_zyx_quat"} -> <<2, 1, 0>>
EulerMat(ang, o) == MMul(MMul(AxisRot(o[1], ang[o[1] + 1]), AxisRot(o[2], ang[o[2] + 1])), AxisRot(o[3], ang[o[3] + 1]))
EulerQuat(ang, o) == Hamilton(Hamilton(AxisQuat(o[1], ang[o[1] + 1]), AxisQuat(o[2], ang[o[2] + 1])), AxisQuat(o[3], ang[o[3] + 1]))
LeftHanded(e) == IF e.n >= 0 THEN e.n = 1 ELSE Field(e.cc, 1, 1) = 1
DepthZO(e) == IF e.m >= 0 THEN e.m = 1 ELSE Field(e.cc, 0, 1) = 1
EulerC(e) ==
  LET ang == V(e, 1, 3)
  IN CASE e.f \in {"euler", "euler_xyz", "euler_xzy", "euler_yxz", "euler_yzx", "euler_zxy", "euler_zyx"} -> <<WM(e, 2, Mat4of3(EulerMat(ang, Order(e.f))))>>
       [] e.f \in {"euler_xyz_quat", "euler_xzy_quat", "euler_yxz_quat", "euler_yzx_quat", "euler_zxy_quat", "euler_zyx_quat"} ->
            <<W(e, 2, EulerQuat(IF LeftHanded(e) THEN <<ang[1], ang[2], Opp(ang[3])>> ELSE ang, Order(e.f)))>>
       [] e.f = "euler_by_order" -> LET o == <<Field(e.a[2], 0, 2), Field(e.a[2], 2, 2), Field(e.a[2], 4, 2)>> IN <<WM(e, 3, Mat4of3(EulerMat(ang, o)))>>
       [] e.f = "euler_order"    -> LET o == IV(e, 1, 3) IN <<RI(o[1] + 4 * o[2] + 16 * o[3])>>
       [] e.f = "euler_angles"   -> <<Free(e, 2, 3)>>
(* angles extracted from a rotation rebuild it; near the gimbal lock only as precisely as asin allows *)
EulerRel(e, alt) ==
  e.f = "euler_angles" =>
    LET A == Upper3(M(e, 1, 4, 4))  d == PV(e, alt, 2, 3)
        y == Abs(A[3][1])
        tol == IF Must(Lt(y, K("0.9"))) THEN K("4e-6") ELSE IF Must(Lt(y, K("0.9999"))) THEN K("1e-4") ELSE K("2e-3")
    IN NearM(EulerMat(d, <<0, 1, 2>>), A, tol) /\ Must(Le(Abs(d[2]), K("1.5707966")))
===============================================================================
