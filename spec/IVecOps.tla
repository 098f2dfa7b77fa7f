------------------------------ MODULE IVecOps --------------------------------
(* C02: integer vectors (exact 32-bit arithmetic; overflow is outside the      *)
(* contract, as in C) and the scalar integer helpers.                          *)
EXTENDS Vec
IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b
IAbs(a) == IF a < 0 THEN 0 - a ELSE a
IClamp(x, lo, hi) == IMin(IMax(x, lo), hi)
ISign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
IDot(a, b) == LET f[i \in 1..Len(a)] == (IF i = 1 THEN 0 ELSE f[i-1]) + a[i] * b[i] IN f[Len(a)]
IVec(e) ==
  LET n == e.n
      a == IV(e, 1, n)  b == IV(e, 2, n)  d == IV(e, 3, n)  s == e.a[2]
      z1(Op(_)) == T([i \in 1..n |-> Op(a[i])])
      z2(Op(_, _)) == T([i \in 1..n |-> Op(a[i], b[i])])
      acc(Op(_, _)) == T([i \in 1..n |-> d[i] + Op(a[i], b[i])])
      accs(Op(_)) == T([i \in 1..n |-> d[i] + Op(a[i])])
      dec(Op(_, _)) == T([i \in 1..n |-> d[i] - Op(a[i], b[i])])
      decs(Op(_)) == T([i \in 1..n |-> d[i] - Op(a[i])])
      add(x, y) == x + y
      sub(x, y) == x - y
      mul(x, y) == x * y
      adds(x) == x + s
      subs(x) == x - s
      muls(x) == x * s
      diff == z2(sub)
  IN CASE e.f \in {"copy"}  -> <<I(e, 2, a)>>
       [] e.f = "ctor"      -> IF n = 4 THEN <<I(e, 3, IV(e, 1, 3) \o <<e.a[2]>>)>> ELSE <<I(e, 2, a)>>
       [] e.f = "zero"      -> <<I(e, 1, T([i \in 1..n |-> 0]))>>
       [] e.f = "one"       -> <<I(e, 1, T([i \in 1..n |-> 1]))>>
       [] e.f = "fill"      -> <<I(e, 1, T([i \in 1..n |-> s]))>>
       [] e.f = "dot"       -> <<RI(IDot(a, b))>>
       [] e.f = "cross"     -> <<RI(a[1] * b[2] - a[2] * b[1])>>
       [] e.f = "norm2"     -> <<RI(IDot(a, a))>>
       [] e.f = "norm"      -> <<RN(Floor(Sqrt(Wide(IDot(a, a)))))>>
       [] e.f = "distance2" -> <<RI(IDot(diff, diff))>>
       [] e.f = "distance"  -> <<R(Sqrt(Wide(IDot(diff, diff))))>>
       [] e.f = "add"       -> <<I(e, 3, z2(add))>>
       [] e.f = "adds"      -> <<I(e, 3, z1(adds))>>
       [] e.f = "sub"       -> <<I(e, 3, diff)>>
       [] e.f = "subs"      -> <<I(e, 3, z1(subs))>>
       [] e.f = "mul"       -> <<I(e, 3, z2(mul))>>
       [] e.f = "scale"     -> <<I(e, 3, z1(muls))>>
       [] e.f = "div"       -> <<I(e, 3, z2(CDiv))>>
       [] e.f = "divs"      -> <<I(e, 3, z1(LAMBDA x : CDiv(x, s)))>>
       [] e.f = "mod"       -> <<I(e, 3, z2(CMod))>>
       [] e.f = "addadd"    -> <<I(e, 3, acc(add))>>
       [] e.f = "addadds"   -> <<I(e, 3, accs(adds))>>
       [] e.f = "subadd"    -> <<I(e, 3, acc(sub))>>
       [] e.f = "subadds"   -> <<I(e, 3, accs(subs))>>
       [] e.f = "muladd"    -> <<I(e, 3, acc(mul))>>
       [] e.f = "muladds"   -> <<I(e, 3, accs(muls))>>
       [] e.f = "maxadd"    -> <<I(e, 3, acc(IMax))>>
       [] e.f = "minadd"    -> <<I(e, 3, acc(IMin))>>
       [] e.f = "subsub"    -> <<I(e, 3, dec(sub))>>
       [] e.f = "subsubs"   -> <<I(e, 3, decs(subs))>>
       [] e.f = "addsub"    -> <<I(e, 3, dec(add))>>
       [] e.f = "addsubs"   -> <<I(e, 3, decs(adds))>>
       [] e.f = "mulsub"    -> <<I(e, 3, dec(mul))>>
       [] e.f = "mulsubs"   -> <<I(e, 3, decs(muls))>>
       [] e.f = "maxsub"    -> <<I(e, 3, dec(IMax))>>
       [] e.f = "minsub"    -> <<I(e, 3, dec(IMin))>>
       [] e.f = "eq"        -> <<RB(IF \A i \in 1..n : a[i] = s THEN 1 ELSE 0)>>
       [] e.f = "eqv"       -> <<RB(IF a = b THEN 1 ELSE 0)>>
       [] e.f = "maxv"      -> <<I(e, 3, z2(IMax))>>
       [] e.f = "minv"      -> <<I(e, 3, z2(IMin))>>
       [] e.f = "clamp"     -> IF s > e.a[3] THEN <<Free(e, 1, n)>> ELSE <<I(e, 1, z1(LAMBDA x : IClamp(x, s, e.a[3])))>>
       [] e.f = "abs"       -> <<I(e, 2, z1(IAbs))>>
       [] e.f \in {"pack", "unpack"} -> <<I(e, 1, IV(e, 2, n * e.a[3]))>>

(* C04: scalar helpers *)
Util(e) ==
  LET x == S(e, 1)  y == S(e, 2)  z == S(e, 3)
      percent == Sel(Eq(x, y), 1, Div(Sub(z, x), Sub(y, x)))
      torad(v) == Div(Mul(v, Pi), 180)
      todeg(v) == Div(Mul(v, 180), Pi)
  IN CASE e.f = "sign"     -> <<RI(ISign(e.a[1]))>>
       [] e.f = "signf"    -> <<R(Sel(Gt(x, 0), 1, Sel(Lt(x, 0), -1, 0)))>>
       [] e.f = "rad"      -> <<R(torad(x))>>
       [] e.f = "deg"      -> <<R(todeg(x))>>
       [] e.f = "make_rad" -> <<W(e, 1, <<torad(VO(e, 1, 0, 1)[1])>>)>>
       [] e.f = "make_deg" -> <<W(e, 1, <<todeg(VO(e, 1, 0, 1)[1])>>)>>
       [] e.f = "pow2"     -> <<R(Sq(x))>>
       [] e.f = "min"      -> <<R(Min(x, y))>>
       [] e.f = "max"      -> <<R(Max(x, y))>>
       [] e.f = "imin"     -> <<RI(IMin(e.a[1], e.a[2]))>>
       [] e.f = "imax"     -> <<RI(IMax(e.a[1], e.a[2]))>>
       [] e.f = "clamp"    -> <<R(ClampU(x, y, z))>>
       [] e.f = "clamp_zo" -> <<R(Clamp01(x))>>
       [] e.f = "lerp"     -> <<R(Lerp1(x, y, z))>>
       [] e.f = "lerpc"    -> <<R(Lerp1(x, y, Clamp01(z)))>>
       [] e.f = "step"     -> <<R(Step(x, y))>>
       [] e.f = "smooth"   -> <<R(Smooth(x))>>
       [] e.f = "smoothstep" -> <<R(Smoothstep(x, y, z))>>
       [] e.f = "smoothinterp" -> <<R(Lerp1(x, y, Smooth(z)))>>
       [] e.f = "smoothinterpc" -> <<R(Lerp1(x, y, Smooth(Clamp01(z))))>>
       [] e.f = "eq"       -> <<RB(EqTol(x, y, Tolerance(e)))>>
       [] e.f = "percent"  -> <<R(percent)>>
       [] e.f = "percentc" -> <<R(Clamp01(percent))>>
       [] e.f = "swapf"    -> <<W(e, 1, V(e, 2, 1)), W(e, 2, V(e, 1, 1))>>
       [] e.f = "luminance" -> <<R(Dot(V(e, 1, 3), <<KD("0.212671"), KD("0.715160"), KD("0.072169")>>))>>
===============================================================================
