------------------------------- MODULE MatOps --------------------------------
(* C06, C07: matrices of every shape (e.n columns, e.m rows).                  *)
EXTENDS Mat
RECURSIVE ProdL(_, _)
ProdL(e, n) == LET A == M([e EXCEPT !.a[1] = @ + 16 * ((n - 1) % 4)], 1, 4, 4)   \* (an array of pointers: matrices may occur again)
               IN IF n = 1 THEN A ELSE MMul(ProdL(e, n - 1), A)
MatC(e) ==
  LET c == e.n  r == e.m
      A0 == M(e, 1, c, r)
  IN CASE e.f \in {"copy", "ucopy", "make"} -> <<WM(e, 2, A0)>>
       [] e.f = "zero"      -> <<WM(e, 1, ZeroM(c, r))>>
       [] e.f = "identity"  -> <<WM(e, 1, Ident(c))>>
       [] e.f = "identity_array" -> <<W(e, 1, LET id == Flat(Ident(c)) IN T([i \in 1..(c*c*e.a[2]) |-> id[((i-1) % (c*c)) + 1]]))>>
       [] e.f = "mul"       -> <<WM(e, 3, MMul(A0, M(e, 2, r, c)))>>
       [] e.f = "mulN"      -> <<WM(e, 3, ProdL(e, e.a[2]))>>
       [] e.f = "mulv"      -> <<W(e, 3, MulV(A0, V(e, 2, c)))>>
       [] e.f = "mulv3"     -> <<W(e, 4, Take(MulV(A0, V(e, 2, 3) \o <<S(e, 3)>>), 3))>>
       [] e.f = "transpose" -> IF Len(e.a) = 1 THEN <<WM(e, 1, Transpose(A0))>> ELSE <<WM(e, 2, Transpose(A0))>>
       [] e.f = "transpose_to" -> <<WM(e, 2, Transpose(A0))>>
       [] e.f \in {"scale", "scale_p"} -> <<WM(e, 1, MScale(A0, S(e, 2)))>>
       [] e.f = "trace"     -> <<R(Trace(A0, c))>>
       [] e.f = "trace3"    -> <<R(Trace(A0, 3))>>
       [] e.f = "rmc"       -> <<R(Dot(V(e, 1, c), MulV(M(e, 2, c, r), V(e, 3, c))))>>
       [] e.f = "pick3"     -> <<WM(e, 2, Upper3(A0))>>
       [] e.f = "pick3t"    -> <<WM(e, 2, Transpose(Upper3(A0)))>>
       [] e.f = "ins3"      -> LET B == M(e, 1, 3, 3) IN <<W(e, 2, B[1]), WO(e, 2, 4, B[2]), WO(e, 2, 8, B[3])>>
       [] e.f = "swap_col"  -> <<WM(e, 1, SwapAt(A0, e.a[2] + 1, e.a[3] + 1))>>
       [] e.f = "swap_row"  -> <<WM(e, 1, T([j \in 1..c |-> SwapAt(A0[j], e.a[2] + 1, e.a[3] + 1)]))>>

MatInv(e) ==
  LET A0 == M(e, 1, e.n, e.n)
  IN CASE e.f = "det" -> <<R(Det(A0))>>
       [] e.f = "inv" -> <<WM(e, 2, Inverse(A0))>>
       [] e.f = "inv_fast" -> LET B == Inverse(A0) IN <<W(e, 2, T([i \in 1..16 |-> Widen(Flat(B)[i], KD("6e-4"), 0)]))>>     \* 12-bit reciprocal
===============================================================================
