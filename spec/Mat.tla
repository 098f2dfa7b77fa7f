-------------------------------- MODULE Mat ----------------------------------
(* Matrix mathematics: a matrix is a tuple of columns.                         *)
EXTENDS Vec
Cols(A) == Len(A)
Rows(A) == Len(A[1])
MatT(c, r, Op(_, _)) == T([j \in 1..c |-> T([i \in 1..r |-> Op(j, i)])])     \* Op(column, row)
Transpose(A) == T([j \in 1..Rows(A) |-> T([i \in 1..Cols(A) |-> A[i][j]])])
RowOf(A, i) == T([j \in 1..Cols(A) |-> A[j][i]])
MulV(A, v) == T([i \in 1..Rows(A) |-> Dot(RowOf(A, i), v)])
MMul(A, B) == LET At == Transpose(A) IN T([j \in 1..Cols(B) |-> T([i \in 1..Rows(A) |-> Dot(At[i], B[j])])])
MScale(A, s) == T([j \in 1..Cols(A) |-> VScale(A[j], s)])
Ident(n) == T([j \in 1..n |-> T([i \in 1..n |-> IF i = j THEN 1 ELSE 0])])
ZeroM(c, r) == T([j \in 1..c |-> Zeros(r)])
Trace(A, n) == Sum(T([i \in 1..n |-> A[i][i]]))
Upper3(A) == T([j \in 1..3 |-> Take(A[j], 3)])
Minor(A, c, r) ==      \* without column c and row r
    LET n == Len(A) IN
    T([j \in 1..(n-1) |-> LET cj == A[IF j < c THEN j ELSE j + 1] IN T([i \in 1..(n-1) |-> cj[IF i < r THEN i ELSE i + 1]])])
RECURSIVE Det(_)
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE IF Len(A) = 2 THEN Sub(Mul(A[1][1], A[2][2]), Mul(A[2][1], A[1][2]))
          ELSE Sum(T([i \in 1..Len(A) |-> LET x == Mul(A[1][i], Det(Minor(A, 1, i))) IN IF i % 2 = 1 THEN x ELSE Opp(x)]))
Cofactor(A, c, r) == LET d == Det(Minor(A, c, r)) IN IF (c + r) % 2 = 0 THEN d ELSE Opp(d)
Adjugate(A) == T([j \in 1..Len(A) |-> T([i \in 1..Len(A) |-> Cofactor(A, i, j)])])      \* (adj A)[col j][row i]
Inverse(A) == LET d == Det(A) adj == IF Len(A) = 2 THEN <<<<A[2][2], Opp(A[1][2])>>, <<Opp(A[2][1]), A[1][1]>>>> ELSE Adjugate(A) IN
              T([j \in 1..Len(A) |-> VDivs(adj[j], d)])
SwapAt(s, i, j) == T([k \in 1..Len(s) |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]])
(* rigid / affine pieces *)
Affine4(R3, t) == <<R3[1] \o <<0>>, R3[2] \o <<0>>, R3[3] \o <<0>>, t \o <<1>>>>
Mat4of3(R3) == Affine4(R3, <<0, 0, 0>>)
RotAxis(ang, k) ==     \* rotation about the unit axis k
    LET c == Cos(ang) s == Sin(ang) q == Sub(1, c)
        kk(i, j) == Mul(Mul(q, k[i]), k[j]) IN
    << <<Add(kk(1,1), c), Add(kk(1,2), Mul(s, k[3])), Sub(kk(1,3), Mul(s, k[2]))>>,
       <<Sub(kk(2,1), Mul(s, k[3])), Add(kk(2,2), c), Add(kk(2,3), Mul(s, k[1]))>>,
       <<Add(kk(3,1), Mul(s, k[2])), Sub(kk(3,2), Mul(s, k[1])), Add(kk(3,3), c)>> >>
===============================================================================
