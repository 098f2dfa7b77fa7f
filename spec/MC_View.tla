-------------------------------- MODULE MC_View -------------------------------
(* C14: every view matrix is rigid, takes the eye to the origin, the viewing    *)
(* direction to -z (right-handed) or z, and up into the upper half of the yz    *)
(* plane.                                                                       *)
EXTENDS MCLib
VARIABLES eye, dir, up, lh
vars == <<eye, dir, up, lh>>
G == {T(v) : v \in [1..3 -> {-1, 0, 1}]}
Far == {<<0, 0, 0>>, <<2, -3, 1>>, <<-1, 4, 5>>}
Init == eye = << >> /\ dir = << >> /\ up = << >> /\ lh = 0
Next == \/ eye = << >> /\ eye' \in Far /\ lh' \in {0, 1} /\ UNCHANGED <<dir, up>>
        \/ eye # << >> /\ dir = << >> /\ dir' \in {T([i \in 1..3 |-> 2 * v[i] + (i % 2)]) : v \in G} \cup G /\ up' \in G /\ UNCHANGED <<eye, lh>>
Spec == Init /\ [][Next]_vars
vw(f, x, cc) == AsMat(Res(CallC("view", IF cc < 0 THEN lh ELSE -1, -1, f, IF cc < 0 THEN 0 ELSE cc, <<P(eye), P(x), P(up), Out(16)>>), 4), 4)
at == T([i \in 1..3 |-> eye[i] + dir[i]])
free == LET c == Cross(dir, up) IN \E i \in 1..3 : ~Is(c[i], 0)
Views == dir # << >> /\ free => LET A == vw("look", dir, -1) s == IF lh = 1 THEN 1 ELSE -1 R3 == Upper3(A) u == MulV(R3, up) IN
  /\ ClM(MMul(R3, Transpose(R3)), Ident(3)) /\ Cl(Det(R3), 1)
  /\ ClV(MulV(A, eye \o <<1>>), <<0, 0, 0, 1>>)
  /\ ClV(MulV(R3, dir), <<0, 0, Mul(s, VNorm(dir))>>)
  /\ Cl(u[1], 0) /\ Must(Gt(u[2], 0))
  /\ ClV(MulV(A, at \o <<1>>), <<0, 0, Mul(s, VNorm(dir)), 1>>)
  /\ ClM(vw("lookat", at, -1), A)
  /\ \A cc \in 0..3 : Field(cc, 1, 1) = lh => ClM(vw("look", dir, cc), A)            \* the configured default
  /\ LET B == vw("look", T([i \in 1..3 |-> 0 - dir[i]]), -1) IN ClM(B, MMul(<<<<-1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, -1, 0>>, <<0, 0, 0, 1>>>>, A))     (* looking back *)
  /\ LET e == CallC("view", lh, -1, "look_anyup", 0, <<P(eye), P(dir), Out(16)>>)
         alt(X) == [w |-> LET x == Flat(X) IN T([i \in 1..16 |-> <<e.a[3] + i - 1, Nm(x[i])>>]), ret |-> 0]
         flip == T([j \in 1..4 |-> <<A[j][1], A[j][2], Opp(A[j][3]), A[j][4]>>])
     IN dir[2] # 0 => ViewRel(e, alt(A)) /\ ~ViewRel(e, alt(flip)) /\ ~ViewRel(e, alt(Affine4(R3, <<1, 0, 0>>)))
===============================================================================
