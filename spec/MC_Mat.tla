-------------------------------- MODULE MC_Mat --------------------------------
(* C06, C07: the matrix contracts form the ring and the group they should.      *)
(* A is a product of elementary matrices built by calls of `mul` on either      *)
(* side; B is its inverse built by the inverse elementary matrices; dt is the   *)
(* determinant expected.                                                        *)
EXTENDS MCLib
CONSTANTS N, Depth
VARIABLES A, B, dt, k
vars == <<A, B, dt, k>>
Elem(i, j, x) == T([c \in 1..N |-> T([r \in 1..N |-> IF r = c THEN 1 ELSE IF c = j /\ r = i THEN x ELSE 0])])     \* row i += x row j
Swap(i, j) == T([c \in 1..N |-> T([r \in 1..N |-> IF c \notin {i, j} THEN (IF r = c THEN 1 ELSE 0) ELSE IF r # c /\ r \in {i, j} THEN 1 ELSE 0])])
Flip(i) == T([c \in 1..N |-> T([r \in 1..N |-> IF r # c THEN 0 ELSE IF r = i THEN -1 ELSE 1])])
(* generators: <<matrix, inverse, determinant>> *)
Gens == {<<Elem(p[1], p[2], p[3]), Elem(p[1], p[2], 0 - p[3]), 1>> : p \in {q \in (1..N) \X (1..N) \X {-1, 2} : q[1] # q[2] /\ (N < 4 \/ (q[1] + q[2] + q[3]) % 3 # 0)}}
        \cup {<<Swap(p[1], p[2]), Swap(p[1], p[2]), -1>> : p \in {q \in (1..N) \X (1..N) : q[1] < q[2]}}
        \cup {<<Flip(i), Flip(i), -1>> : i \in 1..N}
Ints(m) == T([c \in 1..Len(m) |-> T([r \in 1..Len(m[c]) |-> ToInt(m[c][r])])])
Mt(fam, f, x) == LET e == CallC(fam, N, N, f, 0, <<P(Flat(x)), Out(N * N)>>) IN AsMat(Res(e, 2), N)
mulM(x, y) == AsMat(Res(CallC("mat", N, N, "mul", 0, <<P(Flat(x)), P(Flat(y)), Out(N * N)>>), 3), N)
mulv(x, v) == Res(CallC("mat", N, N, "mulv", 0, <<P(Flat(x)), P(v), Out(N)>>), 3)
ret(fam, f, x) == Ret(CallC(fam, N, N, f, 0, <<P(Flat(x))>>))
unop(f, x, y) == AsMat(Obj(CallC("mat", N, N, f, 0, <<P(Flat(x))>> \o y), 1, N * N), N)
Id == AsMat(Res(CallC("mat", N, N, "identity", 0, <<Out(N * N)>>), 1), N)
Init == A = Ints(Id) /\ B = Ints(Id) /\ dt = 1 /\ k = 0
Next == /\ k < Depth
        /\ k' = k + 1
        /\ \E g \in Gens : /\ A' = Ints(mulM(A, g[1])) /\ B' = Ints(mulM(g[2], B)) /\ dt' = dt * g[3]
Spec == Init /\ [][Next]_vars
X == T([c \in 1..N |-> T([r \in 1..N |-> ((c * c + 2 * r + c * r) % 5) - 2])])        \* other operands
Y == T([c \in 1..N |-> T([r \in 1..N |-> ((3 * c + r * r) % 4) - 1])])
v0 == T([i \in 1..N |-> 2 * i - 3])
u0 == T([i \in 1..N |-> ((i * i) % 3) - 1])
LRing ==
  /\ IsM(mulM(A, Id), A) /\ IsM(mulM(Id, A), A)
  /\ IsM(mulM(mulM(A, X), Y), mulM(A, mulM(X, Y)))
  /\ IsM(Mt("mat", "transpose_to", mulM(A, X)), mulM(Mt("mat", "transpose_to", X), Mt("mat", "transpose_to", A)))
  /\ IsM(Mt("mat", "transpose_to", Mt("mat", "transpose_to", A)), A)
  /\ IsM(unop("transpose", A, << >>), Mt("mat", "transpose_to", A))
  /\ IsV(mulv(mulM(A, X), v0), mulv(A, mulv(X, v0)))
  /\ IsM(unop("scale", A, <<S1(3)>>), MMul(A, unop("scale", Id, <<S1(3)>>)))
  /\ Is(ret("mat", "trace", mulM(A, X)), ret("mat", "trace", mulM(X, A)))
  /\ IsM(unop("swap_col", A, <<N1(0), N1(N - 1)>>), mulM(A, Swap(1, N)))
  /\ IsM(unop("swap_row", A, <<N1(0), N1(N - 1)>>), mulM(Swap(1, N), A))
  /\ Is(Ret(CallC("mat", N, N, "rmc", 0, <<P(u0), P(Flat(A)), P(v0)>>)), Dot(u0, mulv(A, v0)))
  /\ N = 4 => /\ LET p == AsMat(Res(CallC("mat", 4, 4, "pick3", 0, <<P(Flat(A)), Out(9)>>), 2), 3) IN
                   /\ IsM(p, Upper3(A)) /\ Is(ret("mat", "trace3", A), Trace(p, 3))
                   /\ IsM(AsMat(Res(CallC("mat", 4, 4, "pick3t", 0, <<P(Flat(A)), Out(9)>>), 2), 3), Transpose(p))
                   /\ IsM(Upper3(AsMat(Obj(CallC("mat", 4, 4, "ins3", 0, <<P(Flat(p)), P(Flat(X))>>), 2, 16), 4)), p)
                   /\ LET z == AsMat(Obj(CallC("mat", 4, 4, "ins3", 0, <<P(Flat(p)), P(Flat(X))>>), 2, 16), 4) IN IsV(z[4], X[4]) /\ IsV(RowOf(z, 4), RowOf(X, 4))
              /\ IsV(Res(CallC("mat", 4, 4, "mulv3", 0, <<P(Flat(A)), P(<<1, 2, -1>>), S1(1), Out(3)>>), 4), Take(mulv(A, <<1, 2, -1, 1>>), 3))
Inverses ==
  /\ IsM(mulM(A, B), Id) /\ IsM(mulM(B, A), Id)
  /\ Is(ret("matinv", "det", A), dt)
  /\ Is(ret("matinv", "det", mulM(A, X)), Mul(dt, ret("matinv", "det", X))) /\ Is(ret("matinv", "det", mulM(X, A)), Mul(dt, ret("matinv", "det", X)))
  /\ Is(ret("matinv", "det", Mt("mat", "transpose_to", A)), dt)
  /\ ClM(Mt("matinv", "inv", A), B)
  /\ N = 4 => \A c, r \in 1..4 : Near(Mt("matinv", "inv_fast", A)[c][r], B[c][r])
===============================================================================
