-------------------------------- MODULE MC_Rect -------------------------------
(* C06: rectangular matrices of every shape (c columns, r rows).               *)
EXTENDS MCLib
VARIABLES c, r, s
vars == <<c, r, s>>
Shapes == {p \in (2..4) \X (2..4) : TRUE}
Init == c = 0 /\ r = 0 /\ s = 0
Next == c = 0 /\ \E p \in Shapes : c' = p[1] /\ r' = p[2] /\ s' \in 0..60
Spec == Init /\ [][Next]_vars
Mx(cc, rr, k) == T([j \in 1..cc |-> T([i \in 1..rr |-> ((k * (j + 3) + i * j * 5 + i * (k + 2)) % 7) - 3])])
Vx(n, k) == T([i \in 1..n |-> ((k * i + i * i) % 5) - 2])
call(cc, rr, f, args) == CallC("mat", cc, rr, f, 0, args)
mul(x, y, cc, rr) == AsMat(Res(call(cc, rr, "mul", <<P(Flat(x)), P(Flat(y)), Out(rr * rr)>>), 3), rr)
mulv(x, v) == Res(call(Cols(x), Rows(x), "mulv", <<P(Flat(x)), P(v), Out(Rows(x))>>), 3)
tr(x) == AsMat(Res(call(Cols(x), Rows(x), "transpose", <<P(Flat(x)), Out(Cols(x) * Rows(x))>>), 2), Cols(x))
Laws == c > 0 => LET A == Mx(c, r, s) B == Mx(r, c, s + 3) v == Vx(r, s) AB == mul(A, B, c, r) BA == mul(B, A, r, c) IN
  /\ Cols(AB) = r /\ Rows(AB) = r
  /\ IsV(mulv(AB, v), mulv(A, mulv(B, v)))
  /\ IsM(tr(tr(A)), A) /\ IsM(tr(AB), mul(tr(B), tr(A), c, r))
  /\ Is(Trace(AB, r), Trace(BA, c))
  /\ \A i \in 1..c : IsV(mulv(A, T([j \in 1..c |-> IF j = i THEN 1 ELSE 0])), A[i])          \* columns are images of the axes
  /\ IsM(AsMat(Obj(call(c, r, "scale", <<P(Flat(A)), S1(-2)>>), 1, c * r), r), MScale(A, -2))
  /\ \A i \in 1..c : \A j \in 1..r : IsV(tr(A)[j], RowOf(A, j))
===============================================================================
