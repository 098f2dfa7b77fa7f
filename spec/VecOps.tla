------------------------------- MODULE VecOps --------------------------------
(* Contracts of the float vector operations (vec2, vec3, vec4: n components).  *)
EXTENDS Vec

(* ---- C01: arithmetic ---- *)
VArith(e) ==
  LET n == e.n
      a == V(e, 1, n)  b == V(e, 2, n)  d == V(e, 3, n)  s == S(e, 2)
  IN CASE e.f \in {"copy", "ucopy"} -> <<W(e, 2, a)>>
       [] e.f = "make"    -> <<W(e, 2, a)>>
       [] e.f = "ctor"    -> IF n = 4 THEN <<W(e, 3, V(e, 1, 3) \o <<s>>)>> ELSE <<W(e, 2, a)>>
       [] e.f = "copy3"   -> <<W(e, 2, Take(a, 3))>>
       [] e.f = "zero"    -> <<W(e, 1, Zeros(n))>>
       [] e.f = "one"     -> <<W(e, 1, Const(n, 1))>>
       [] e.f = "fill"    -> <<W(e, 1, Const(n, s))>>
       [] e.f = "broadcast" -> <<W(e, 2, Const(n, S(e, 1)))>>
       [] e.f = "dot"     -> <<R(Dot(a, b))>>
       [] e.f = "norm2"   -> <<R(VNorm2(a))>>
       [] e.f = "norm"    -> <<R(VNorm(a))>>
       [] e.f = "norm_one" -> <<R(Sum(VAbs(a)))>>
       [] e.f = "norm_inf" -> <<R(MaxAll(VAbs(a)))>>
       [] e.f = "hadd"    -> <<R(Sum(a))>>
       [] e.f = "distance2" -> <<R(Dist2(a, b))>>
       [] e.f = "distance" -> <<R(Dist(a, b))>>
       [] e.f = "cross"   -> IF n = 2 THEN <<R(Sub(Mul(a[1], b[2]), Mul(a[2], b[1])))>> ELSE <<W(e, 3, Cross(a, b))>>
       [] e.f = "add"     -> <<W(e, 3, VAdd(a, b))>>
       [] e.f = "adds"    -> <<W(e, 3, Map1(LAMBDA x : Add(x, s), a))>>
       [] e.f = "sub"     -> <<W(e, 3, VSub(a, b))>>
       [] e.f = "subs"    -> <<W(e, 3, Map1(LAMBDA x : Sub(x, s), a))>>
       [] e.f = "mul"     -> <<W(e, 3, VMul(a, b))>>
       [] e.f = "scale"   -> <<W(e, 3, VScale(a, s))>>
       [] e.f = "div"     -> <<W(e, 3, VDiv(a, b))>>
       [] e.f = "divs"    -> <<W(e, 3, VDivs(a, s))>>
       [] e.f = "addadd"  -> <<W(e, 3, VAdd(d, VAdd(a, b)))>>
       [] e.f = "subadd"  -> <<W(e, 3, VAdd(d, VSub(a, b)))>>
       [] e.f = "muladd"  -> <<W(e, 3, VAdd(d, VMul(a, b)))>>
       [] e.f = "muladds" -> <<W(e, 3, VAdd(d, VScale(a, s)))>>
       [] e.f = "maxadd"  -> <<W(e, 3, VAdd(d, VMax(a, b)))>>
       [] e.f = "minadd"  -> <<W(e, 3, VAdd(d, VMin(a, b)))>>
       [] e.f = "subsub"  -> <<W(e, 3, VSub(d, VSub(a, b)))>>
       [] e.f = "addsub"  -> <<W(e, 3, VSub(d, VAdd(a, b)))>>
       [] e.f = "mulsub"  -> <<W(e, 3, VSub(d, VMul(a, b)))>>
       [] e.f = "mulsubs" -> <<W(e, 3, VSub(d, VScale(a, s)))>>
       [] e.f = "maxsub"  -> <<W(e, 3, VSub(d, VMax(a, b)))>>
       [] e.f = "minsub"  -> <<W(e, 3, VSub(d, VMin(a, b)))>>
       [] e.f = "negate_to" -> <<W(e, 2, VNeg(a))>>
       [] e.f = "negate"  -> <<W(e, 1, VNeg(a))>>
       [] e.f = "maxv"    -> <<W(e, 3, VMax(a, b))>>
       [] e.f = "minv"    -> <<W(e, 3, VMin(a, b))>>
       [] e.f = "clamp"   -> <<W(e, 1, Map1(LAMBDA x : ClampU(x, s, S(e, 3)), a))>>
       [] e.f = "complex_mul" -> <<W(e, 3, <<Sub(Mul(a[1], b[1]), Mul(a[2], b[2])),
                                            Add(Mul(a[1], b[2]), Mul(a[2], b[1]))>>)>>
       [] e.f = "complex_div" -> <<W(e, 3, LET q == VNorm2(b) IN
                                   <<Div(Add(Mul(a[1], b[1]), Mul(a[2], b[2])), q),
                                     Div(Sub(Mul(a[2], b[1]), Mul(a[1], b[2])), q)>>)>>
       [] e.f = "complex_conjugate" -> <<W(e, 2, <<a[1], Opp(a[2])>>)>>
       [] e.f \in {"pack", "unpack"} -> <<W(e, 1, V(e, 2, n * e.a[3]))>>
       [] e.f = "cubic"   -> LET x == S(e, 1) IN <<W(e, 2, <<Mul(Mul(x, x), x), Mul(x, x), x, 1>>)>>

(* ---- C03: comparison, classification, rounding, swizzles ---- *)
VClass(e) ==
  LET n == e.n
      a == V(e, 1, n)  b == V(e, 2, n)  s == S(e, 2)
      each(Op(_)) == All3(Map1(Op, a))
      tol == Tolerance(e)
      EqEps(x, y) == EqTol(x, y, tol)
  IN CASE e.f = "eq"      -> <<RB(each(LAMBDA x : Eq(x, s)))>>
       [] e.f = "eq_eps"  -> <<RB(each(LAMBDA x : EqEps(x, s)))>>
       [] e.f = "eq_all"  -> <<RB(each(LAMBDA x : EqEps(x, a[1])))>>
       [] e.f = "eqv"     -> <<RB(All3(Map2(Eq, a, b)))>>
       [] e.f = "eqv_eps" -> <<RB(All3(Map2(EqEps, a, b)))>>
       [] e.f = "max"     -> <<R(MaxAll(a))>>
       [] e.f = "min"     -> <<R(MinAll(a))>>
       [] e.f = "isnan"   -> <<RB(Any3(Map1(IsNan, a)))>>
       [] e.f = "isinf"   -> <<RB(Any3(Map1(IsInf, a)))>>
       [] e.f = "isvalid" -> <<RB(each(LAMBDA x : Not3(Or3(IsNan(x), IsInf(x)))))>>
       [] e.f = "sign"    -> <<W(e, 2, Map1(LAMBDA x : Sel(Gt(x, 0), 1, Sel(Lt(x, 0), -1, 0)), a))>>
       [] e.f = "abs"     -> <<W(e, 2, VAbs(a))>>
       [] e.f = "fract"   -> <<W(e, 2, Map1(LAMBDA x : Min(FSub(x, Floor(x)), K("0.99999994")), a))>>
       [] e.f = "floor"   -> <<W(e, 2, Map1(Floor, a))>>
       [] e.f = "mods"    -> <<W(e, 3, Map1(LAMBDA x : Fmod(x, s), a))>>
       [] e.f = "sqrt"    -> <<W(e, 2, Map1(Sqrt, a))>>
       [] e.f = "steps"   -> <<W(e, 3, Map1(LAMBDA x : Step(S(e, 1), x), b))>>
       [] e.f = "stepr"   -> <<W(e, 3, Map1(LAMBDA x : Step(x, s), a))>>
       [] e.f = "step"    -> <<W(e, 3, Map2(Step, a, b))>>
       [] e.f = "swizzle" -> <<W(e, 3, T([i \in 1..n |-> a[Field(e.a[2], 2*(i-1), 2) + 1]]))>>

(* ---- C04: interpolation ---- *)
VInterp(e) ==
  LET n == e.n
      a == V(e, 1, n)  b == V(e, 2, n)  x == V(e, 3, n)  tt == S(e, 3)
  IN CASE e.f \in {"lerp", "mix"}   -> <<W(e, 4, VLerp(a, b, IF n = 2 THEN Clamp01(tt) ELSE tt))>>
       [] e.f \in {"lerpc", "mixc"} -> <<W(e, 4, VLerp(a, b, Clamp01(tt)))>>
       [] e.f = "smoothinterp"      -> <<W(e, 4, VLerp(a, b, Smooth(tt)))>>
       [] e.f = "smoothinterpc"     -> <<W(e, 4, VLerp(a, b, Smooth(Clamp01(tt))))>>
       [] e.f = "smoothstep"        -> <<W(e, 4, T([i \in 1..n |-> Smoothstep(a[i], b[i], x[i])]))>>
       [] e.f = "smoothstep_uni"    -> <<W(e, 4, Map1(LAMBDA z : Smoothstep(S(e, 1), S(e, 2), z), x))>>

(* ---- C05: geometry ---- *)
Refract(v, nn, eta) ==       \* <<condition, direction>>
  LET ndi == Dot(nn, v)
      eni == Mul(eta, ndi)
      k == Add(Sub(1, Mul(eta, eta)), Sq(eni))
      q == Add(eni, Sqrt(k))
      tir == Lt(k, 0)
  IN <<Not3(tir), IF tir = 1 THEN Zeros(Len(v)) ELSE Sel(tir, Zeros(Len(v)), VSub(VScale(v, eta), VScale(nn, q)))>>
VGeom(e) ==
  LET n == e.n
      a == V(e, 1, n)  b == V(e, 2, n)  c == V(e, 3, n)  s == S(e, 2)
      cols(r) == T([j \in 1..3 |-> Take(Normalize(Take(VO(e, 1, r*(j-1), r), r) \o Zeros(4 - r)), 3)])
  IN CASE e.f = "normalize"    -> <<W(e, 1, Normalize(a))>>
       [] e.f = "normalize_to" -> <<W(e, 2, Normalize(a))>>
       [] e.f = "scale_as"     -> <<W(e, 3, LET nn == VNorm(a) IN
                                   Sel(Lt(nn, Eps), Zeros(n), VScale(a, Div(s, nn))))>>
       [] e.f = "angle"        -> <<R(ArcCos(Mul(Dot(a, b), Div(1, Mul(VNorm(a), VNorm(b))))))>>
       [] e.f = "crossn"       -> <<W(e, 3, Normalize(Cross(a, b)))>>
       [] e.f = "rotate"       -> IF n = 2 THEN <<W(e, 3, Rot2(a, s))>> ELSE <<W(e, 1, Rodrigues(a, s, Normalize(c)))>>
       [] e.f = "rotate_m4"    -> LET k == cols(4) v == V(e, 2, 3) IN
                                  <<W(e, 3, T([i \in 1..3 |-> Dot(v, <<k[1][i], k[2][i], k[3][i]>>)]))>>
       [] e.f = "rotate_m3"    -> LET k == cols(3) v == V(e, 2, 3) IN
                                  <<W(e, 3, T([i \in 1..3 |-> Dot(v, <<k[1][i], k[2][i], k[3][i]>>)]))>>
       [] e.f = "proj"         -> <<W(e, 3, VScale(b, Div(Dot(a, b), VNorm2(b))))>>
       [] e.f = "center"       -> <<W(e, 3, Map2(LAMBDA x, y : Mul(Add(x, y), KD("0.5")), a, b))>>
       [] e.f = "ortho"        -> <<Free(e, 2, 3)>>
       [] e.f = "faceforward"  -> <<W(e, 4, Sel(Lt(Dot(b, c), 0), a, VNeg(a)))>>
       [] e.f = "reflect"      -> LET d == Mul(2, Dot(a, b))
                                      r == T([i \in 1..n |-> Sub(a[i], Mul(b[i], d))]) IN
                                  <<W(e, 3, IF n = 4 THEN <<r[1], r[2], r[3], a[4]>> ELSE r)>>
       [] e.f = "refract"      -> LET q == Refract(a, b, S(e, 3)) IN <<W(e, 4, q[2]), RB(q[1])>>
(* vec3_ortho may return any vector orthogonal to v; for a unit v it is not (nearly) zero: the formula's infimum is 0.366 *)
VGeomRel(e, alt) ==
  e.f = "ortho" => LET v == V(e, 1, 3) d == PV(e, alt, 2, 3) IN
                   /\ Near(Widen(Dot(v, d), 0, KD("1e-30")), 0)
                   /\ (Must(Gt(Abs(v[2]), KD("1e-30"))) => \E i \in 1..3 : Must(Ge(Abs(d[i]), Mul(KD("0.5"), Abs(v[2])))))
                   /\ (Must(Lt(Abs(Sub(VNorm2(v), 1)), K("1e-3"))) => May(Gt(VNorm(d), K("0.3"))))
===============================================================================
