--------------------------------- MODULE Simd ---------------------------------
(* C24: the vocabulary of 4 (and 8) lane operations the vector and matrix code  *)
(* is written in.  Every instruction set provides its own version of each; all  *)
(* denote the same function.                                                     *)
EXTENDS Consts

Lanes(mask, v) == T([i \in 1..4 |-> v[Field(mask, 2 * (i - 1), 2) + 1]])
SimdC(e) ==
  LET w == IF e.n = 8 THEN 8 ELSE 4
      a == V(e, 1, w)  b == V(e, 2, w)  c == V(e, 3, w)
  IN CASE e.f = "abs"      -> <<W(e, 2, VAbs(a))>>
       [] e.f = "min"      -> <<W(e, 3, VMin(a, b))>>
       [] e.f = "max"      -> <<W(e, 3, VMax(a, b))>>
       [] e.f = "div"      -> <<W(e, 3, VDiv(a, b))>>
       [] e.f = "vhadd"    -> <<W(e, 2, Const(4, Sum(a)))>>          \* the sum, in every lane
       [] e.f = "vdot"     -> <<W(e, 3, Const(4, Dot(a, b)))>>
       [] e.f = "hadd"     -> <<R(Sum(a))>>
       [] e.f = "hmin"     -> <<R(MinAll(a))>>
       [] e.f = "hmax"     -> <<R(MaxAll(a))>>
       [] e.f = "dot"      -> <<R(Dot(a, b))>>
       [] e.f = "norm"     -> <<R(VNorm(a))>>
       [] e.f = "norm2"    -> <<R(VNorm2(a))>>
       [] e.f = "norm_one" -> <<R(Sum(VAbs(a)))>>
       [] e.f = "norm_inf" -> <<R(MaxAll(VAbs(a)))>>
       [] e.f = "fmadd"    -> <<W(e, 4, VAdd(VMul(a, b), c))>>
       [] e.f = "fnmadd"   -> <<W(e, 4, VSub(c, VMul(a, b)))>>
       [] e.f = "fmsub"    -> <<W(e, 4, VSub(VMul(a, b), c))>>
       [] e.f = "fnmsub"   -> <<W(e, 4, VNeg(VAdd(VMul(a, b), c)))>>
       [] e.f = "load3"    -> <<W(e, 2, Take(a, 3) \o <<0>>)>>
       [] e.f = "store3"   -> <<W(e, 2, Take(a, 3))>>
       [] e.f = "splat"    -> <<W(e, 2, Const(4, a[e.n + 1]))>>
       [] e.f = "shuff"    -> <<W(e, 2, Lanes(e.n, a))>>
       [] e.f = "combine"  -> LET x == e.n \div 4  y == e.n % 4 IN <<W(e, 3, <<a[x + 1], a[x + 2], b[y + 1], b[y + 2]>>)>>
===============================================================================
