------------------------------- MODULE Affine --------------------------------
(* C08, C09: 3D and 2D affine transforms, each defined as a product with its   *)
(* elementary transform.  The plain functions apply the new transform before   *)
(* the existing one (M * E), the -ed functions after it (E * M).               *)
EXTENDS Mat
Tr4(v) == Affine4(Ident(3), v)
Diag4(v) == <<<<v[1], 0, 0, 0>>, <<0, v[2], 0, 0>>, <<0, 0, v[3], 0>>, <<0, 0, 0, 1>>>>
RX(a) == LET c == Cos(a) s == Sin(a) IN <<<<1, 0, 0>>, <<0, c, s>>, <<0, Opp(s), c>>>>
RY(a) == LET c == Cos(a) s == Sin(a) IN <<<<c, 0, Opp(s)>>, <<0, 1, 0>>, <<s, 0, c>>>>
RZ(a) == LET c == Cos(a) s == Sin(a) IN <<<<c, s, 0>>, <<Opp(s), c, 0>>, <<0, 0, 1>>>>
Rot3(a, axis) == RotAxis(a, Normalize(axis))
Rot4(a, axis) == Mat4of3(Rot3(a, axis))
Axis1(f, x) == CASE f = "x" -> <<x, 0, 0>> [] f = "y" -> <<0, x, 0>> [] f = "z" -> <<0, 0, x>>
Pivoted(p, R4) == MMul(Tr4(p), MMul(R4, Tr4(VNeg(p))))
InvRigid(A) == LET Rt == Transpose(Upper3(A)) IN Affine4(Rt, VNeg(MulV(Rt, Take(A[4], 3))))
AffC(e) ==
  LET A == M(e, 1, 4, 4)  v == V(e, 2, 3)  s == S(e, 2)
      p == Take(A[4], 3)
      col4(x) == <<WO(e, 1, 12, x)>>
      scl == T([i \in 1..3 |-> VNorm(Take(A[i], 3))])
      neg == Lt(Dot(Cross(Take(A[1], 3), Take(A[2], 3)), Take(A[3], 3)), 0)
      ssc == T([i \in 1..3 |-> Sel(neg, Opp(scl[i]), scl[i])])
      rs == T([i \in 1..3 |-> T([k \in 1..4 |-> Sel(neg, Opp(Div(A[i][k], scl[i])), Div(A[i][k], scl[i]))])]) \o <<<<0, 0, 0, 1>>>>
      grow(x) == Take(VAdd(p, x), 3)
  IN CASE e.f = "translate"      -> col4(MMul(A, Tr4(v))[4])
       [] e.f = "translate_to"   -> <<WM(e, 3, MMul(A, Tr4(v)))>>
       [] e.f = "translate_x"    -> col4(MMul(A, Tr4(Axis1("x", s)))[4])
       [] e.f = "translate_y"    -> col4(MMul(A, Tr4(Axis1("y", s)))[4])
       [] e.f = "translate_z"    -> col4(MMul(A, Tr4(Axis1("z", s)))[4])
       [] e.f = "translate_make" -> <<WM(e, 1, Tr4(v))>>
       [] e.f = "translated"     -> <<WO(e, 1, 12, grow(v))>>
       [] e.f = "translated_to"  -> <<WM(e, 3, <<A[1], A[2], A[3], grow(v) \o <<A[4][4]>>>>)>>
       [] e.f = "translated_x"   -> <<WO(e, 1, 12, grow(Axis1("x", s)))>>
       [] e.f = "translated_y"   -> <<WO(e, 1, 12, grow(Axis1("y", s)))>>
       [] e.f = "translated_z"   -> <<WO(e, 1, 12, grow(Axis1("z", s)))>>
       [] e.f = "scale"          -> <<WM(e, 1, MMul(A, Diag4(v)))>>
       [] e.f = "scale_uni"      -> <<WM(e, 1, MMul(A, Diag4(<<s, s, s>>)))>>
       [] e.f = "scale_to"       -> <<WM(e, 3, MMul(A, Diag4(v)))>>
       [] e.f = "scale_make"     -> <<WM(e, 1, Diag4(v))>>
       [] e.f = "rotate_x"       -> <<WM(e, 3, MMul(A, Mat4of3(RX(s))))>>
       [] e.f = "rotate_y"       -> <<WM(e, 3, MMul(A, Mat4of3(RY(s))))>>
       [] e.f = "rotate_z"       -> <<WM(e, 3, MMul(A, Mat4of3(RZ(s))))>>
       [] e.f = "rotated_x"      -> <<WM(e, 3, MMul(Mat4of3(RX(s)), A))>>
       [] e.f = "rotated_y"      -> <<WM(e, 3, MMul(Mat4of3(RY(s)), A))>>
       [] e.f = "rotated_z"      -> <<WM(e, 3, MMul(Mat4of3(RZ(s)), A))>>
       [] e.f = "rotate_make"    -> <<WM(e, 1, Rot4(s, V(e, 3, 3)))>>
       [] e.f \in {"rotate", "spin"} -> <<WM(e, 1, MMul(A, Rot4(s, V(e, 3, 3))))>>
       [] e.f = "rotated"        -> <<WM(e, 1, MMul(Rot4(s, V(e, 3, 3)), A))>>
       [] e.f = "rotate_at"      -> <<WM(e, 1, MMul(MMul(MMul(A, Tr4(v)), Rot4(S(e, 3), V(e, 4, 3))), Tr4(VNeg(v))))>>
       [] e.f = "rotate_atm"     -> <<WM(e, 1, Pivoted(v, Rot4(S(e, 3), V(e, 4, 3))))>>
       [] e.f = "rotated_at"     -> <<WM(e, 1, MMul(Pivoted(v, Rot4(S(e, 3), V(e, 4, 3))), A))>>
       [] e.f = "spinned"        -> <<WM(e, 1, MMul(Pivoted(p, Rot4(s, V(e, 3, 3))), A))>>
       [] e.f \in {"mul", "mul_rot"} -> <<WM(e, 3, MMul(A, M(e, 2, 4, 4)))>>
       [] e.f = "inv_tr"         -> <<WM(e, 1, InvRigid(A))>>
       [] e.f = "decompose_scalev" -> <<W(e, 2, scl)>>
       [] e.f = "uniscaled"      -> <<RB(All3(T([i \in 1..3 |-> Le(Abs(Sub(scl[i], scl[1])), K("1e-5"))])))>>
       [] e.f = "decompose_rs"   -> <<WM(e, 2, rs), W(e, 3, ssc)>>
       [] e.f = "decompose"      -> <<W(e, 2, A[4]), WM(e, 3, rs), W(e, 4, ssc)>>

Tr3(v) == <<<<1, 0, 0>>, <<0, 1, 0>>, <<v[1], v[2], 1>>>>
Diag3(v) == <<<<v[1], 0, 0>>, <<0, v[2], 0>>, <<0, 0, 1>>>>
Top2(A) == T([j \in 1..3 |-> <<A[j][1], A[j][2]>>])
Aff2C(e) ==
  LET A == M(e, 1, 3, 3)  v == V(e, 2, 2)  s == S(e, 2)
      two(B) == <<W(e, 1, B[1] \o B[2])>>                  \* the first two columns change
      rows(B) == <<WO(e, 1, 0, B[1]), WO(e, 1, 3, B[2]), WO(e, 1, 6, B[3])>>   \* the first two rows change
      tex == LET c == Cos(S(e, 3)) q == Sin(S(e, 3)) x == S(e, 1) y == S(e, 2) IN
                <<Mul(c, x), Opp(Mul(q, y)), Mul(q, x), Mul(c, y)>>
  IN CASE e.f = "translate2d"      -> <<WO(e, 1, 6, MMul(A, Tr3(v))[3])>>
       [] e.f = "translate2d_x"    -> <<WO(e, 1, 6, MMul(A, Tr3(<<s, 0>>))[3])>>
       [] e.f = "translate2d_y"    -> <<WO(e, 1, 6, MMul(A, Tr3(<<0, s>>))[3])>>
       [] e.f = "translate2d_to"   -> <<WM(e, 3, MMul(A, Tr3(v)))>>
       [] e.f = "translate2d_make" -> <<WM(e, 1, Tr3(v))>>
       [] e.f = "scale2d"          -> two(MMul(A, Diag3(v)))
       [] e.f = "scale2d_uni"      -> two(MMul(A, Diag3(<<s, s>>)))
       [] e.f = "scale2d_to"       -> <<WM(e, 3, MMul(A, Diag3(v)))>>
       [] e.f = "scale2d_make"     -> <<WM(e, 1, Diag3(v))>>
       [] e.f = "rotate2d"         -> two(MMul(A, RZ(s)))
       [] e.f = "rotate2d_to"      -> <<WM(e, 3, MMul(A, RZ(s)))>>
       [] e.f = "rotate2d_make"    -> <<WM(e, 1, RZ(s))>>
       [] e.f = "translated2d"     -> <<WO(e, 1, 6, <<Add(A[3][1], v[1]), Add(A[3][2], v[2])>>)>>
       [] e.f = "translated2d_x"   -> <<WO(e, 1, 6, <<Add(A[3][1], s)>>)>>
       [] e.f = "translated2d_y"   -> <<WO(e, 1, 7, <<Add(A[3][2], s)>>)>>
       [] e.f = "rotated2d"        -> rows(Top2(MMul(RZ(s), A)))
       [] e.f = "scaled2d"         -> rows(Top2(MMul(Diag3(v), A)))
       [] e.f = "scaled2d_uni"     -> rows(Top2(MMul(Diag3(<<s, s>>), A)))
       [] e.f = "textrans"         -> LET t == tex IN
            IF e.n = 3 THEN <<WM(e, 6, <<<<t[1], t[2], 0>>, <<t[3], t[4], 0>>, <<S(e, 4), S(e, 5), 1>>>>)>>
            ELSE <<WM(e, 6, <<<<t[1], t[2], 0, 0>>, <<t[3], t[4], 0, 0>>, <<0, 0, 1, 0>>, <<S(e, 4), S(e, 5), 0, 1>>>>)>>
===============================================================================
