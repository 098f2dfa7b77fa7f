-------------------------------- MODULE MCLib --------------------------------
(* Model checking of the contracts themselves.  The MC_* modules enumerate     *)
(* every call of the abstract machine over small exact domains and check that *)
(* the contracts (the same definitions the recorded traces are validated      *)
(* against) have the properties a user relies on: that an inverse inverts,    *)
(* that planes and clip cube agree, that conversions round-trip.  In these    *)
(* models a memory word is a number instead of the bits of a float.           *)
EXTENDS Contracts, TLC

Nm(x) == Add(x, 0)                        \* an integer as a number
(* arguments of a call: <<"P", numbers>> an object, <<"Q", ints>> an object of ints, <<"S", number>>, <<"N", int>> *)
P(v) == <<"P", v>>
S1(x) == <<"S", x>>
N1(i) == <<"N", i>>
Q1(v) == <<"Q", v>>
PM1(A) == P(Flat(A))
Out(n) == P(Zeros(n))
RECURSIVE Sizes(_, _)
Sizes(args, k) == IF k = 0 THEN 0 ELSE Sizes(args, k - 1) + (IF args[k][1] \in {"P", "Q"} THEN Len(args[k][2]) ELSE 0)
RECURSIVE Lay(_, _)
Lay(args, k) == IF k = 0 THEN << >> ELSE Lay(args, k - 1) \o (CASE args[k][1] = "P" -> T([i \in 1..Len(args[k][2]) |-> Nm(args[k][2][i])]) [] args[k][1] = "Q" -> args[k][2] [] OTHER -> << >>)
CallC(fam, n, m, f, cc, args) ==
  [fam |-> fam, n |-> n, m |-> m, f |-> f, cc |-> cc,
   a |-> T([k \in 1..Len(args) |-> CASE args[k][1] \in {"P", "Q"} -> Sizes(args, k - 1) [] args[k][1] = "S" -> Nm(args[k][2]) [] OTHER -> args[k][2]]),
   pre |-> Lay(args, Len(args))]
Call(fam, n, f, args) == CallC(fam, n, -1, f, 0, args)
(* what a call leaves at offset o of its k-th argument: the numbers of the clause written there *)
OutAt(e, cs, k, o) == cs[CHOOSE i \in 1..Len(cs) : cs[i][1] \in {"W", "I"} /\ cs[i][2] = e.a[k] + o][3]
Res(e, k) == OutAt(e, Contract(e), k, 0)
Ret(e) == LET cs == Contract(e) IN cs[CHOOSE i \in 1..Len(cs) : cs[i][1] \in {"R", "RI", "RB", "RN"}][2]
(* the whole object after the call, also when only parts of it are written *)
Obj(e, k, n) == LET cs == Contract(e) IN
  T([j \in 1..n |-> LET hit == {i \in 1..Len(cs) : cs[i][1] = "W" /\ cs[i][2] <= e.a[k] + j - 1 /\ e.a[k] + j - 1 < cs[i][2] + Len(cs[i][3])} IN
     IF hit = {} THEN e.pre[e.a[k] + j] ELSE LET i == CHOOSE i \in hit : TRUE IN cs[i][3][e.a[k] + j - cs[i][2]]])
AsMat(v, r) == T([j \in 1..(Len(v) \div r) |-> T([i \in 1..r |-> v[(j - 1) * r + i]])])

Is(x, y) == Must(Eq(x, y))                               \* exactly equal
IsV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Is(a[i], b[i])
IsM(A, B) == Len(A) = Len(B) /\ \A j \in 1..Len(A) : IsV(A[j], B[j])
(* equal up to float rounding: the intervals meet and are tight *)
Tight(x) == ~Vacuous(x) /\ Must(Lt(Abs(Sub(x, x)), Mul(K("1e-3"), Add(1, Abs(x)))))
Cl(x, y) == Near(x, y) /\ Tight(x) /\ Tight(y)
ClV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cl(a[i], b[i])
ClM(A, B) == Len(A) = Len(B) /\ \A j \in 1..Len(A) : ClV(A[j], B[j])
Vecs(n, rg) == [1..n -> rg]                               \* every vector over R
==============================================================================
