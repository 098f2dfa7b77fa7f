------------------------------- MODULE MC_Affine ------------------------------
(* C08, C09: a program of transform calls on a 4x4 and a 3x3 matrix.  Beside the *)
(* matrices the model keeps what each does to a test point, computed on the       *)
(* point alone: a plain call acts on the point first (the existing transform      *)
(* second), an -ed call acts last.  Rotations are by quarter turns, whose matrices *)
(* are integers again once rounded.                                                *)
EXTENDS MCLib
CONSTANT Depth
VARIABLES A, A2, pt, k, last
vars == <<A, A2, pt, k, last>>
Q1a == KD("1.57079632679489661923")
IntM(m, r) == T([j \in 1..(Len(m) \div r) |-> T([i \in 1..r |-> Nearest(m[(j - 1) * r + i])])])
Vs == {<<2, -1, 3>>, <<0, 1, -2>>}
Axs == {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 2>>}
on(f, args) == Obj(Call("aff", 0, f, <<PM1(A)>> \o args), 1, 16)
to(f, args) == LET e == Call("aff", 0, f, <<PM1(A)>> \o args \o <<Out(16)>>) IN Res(e, Len(args) + 2)
quarter(ax, p) == LET u == Normalize(ax) IN T([i \in 1..3 |-> Nearest(Rodrigues(p, Q1a, u)[i])])     \* p turned about ax
vmul(a, b) == T([i \in 1..3 |-> a[i] * b[i]])
vadd(a, b) == T([i \in 1..3 |-> a[i] + b[i]])
vneg(a) == T([i \in 1..3 |-> 0 - a[i]])
tpt(m, p) == T([i \in 1..3 |-> m[1][i] * p[1] + m[2][i] * p[2] + m[3][i] * p[3] + m[4][i]])
tpt2(m, p) == T([i \in 1..2 |-> m[1][i] * p[1] + m[2][i] * p[2] + m[3][i]])
Pts == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<2, 3, -1>>}
Id4 == T([j \in 1..4 |-> T([i \in 1..4 |-> IF i = j THEN 1 ELSE 0])])
Id3 == T([j \in 1..3 |-> T([i \in 1..3 |-> IF i = j THEN 1 ELSE 0])])
Init == A = Id4 /\ A2 = Id3 /\ pt \in Pts /\ k = 0 /\ last = <<"none", 0, 0>>
(* the state after a call: new matrix from the contract; `exp` is where the point must go *)
ctl(nm, m16, exp) == /\ A' = IntM(m16, 4) /\ last' = <<nm, tpt(A', pt), exp>> /\ A2' = A2
Next4 ==
  \/ \E v \in Vs : ctl("translate", on("translate", <<P(v)>>), tpt(A, vadd(v, pt)))
  \/ \E v \in Vs : ctl("translate_to", to("translate_to", <<P(v)>>), tpt(A, vadd(v, pt)))
  \/ \E v \in Vs : ctl("translated", on("translated", <<P(v)>>), vadd(v, tpt(A, pt)))
  \/ \E v \in Vs : ctl("translated_to", to("translated_to", <<P(v)>>), vadd(v, tpt(A, pt)))
  \/ \E w \in 1..3 : LET f == <<"translate_x", "translate_y", "translate_z">>[w] v == T([i \in 1..3 |-> IF i = w THEN 4 ELSE 0]) IN ctl(f, on(f, <<S1(4)>>), tpt(A, vadd(v, pt)))
  \/ \E w \in 1..3 : LET f == <<"translated_x", "translated_y", "translated_z">>[w] v == T([i \in 1..3 |-> IF i = w THEN 4 ELSE 0]) IN ctl(f, on(f, <<S1(4)>>), vadd(v, tpt(A, pt)))
  \/ \E v \in {<<2, 1, -1>>} : ctl("scale", on("scale", <<P(v)>>), tpt(A, vmul(v, pt)))
  \/ \E v \in {<<1, -2, 1>>} : ctl("scale_to", to("scale_to", <<P(v)>>), tpt(A, vmul(v, pt)))
  \/ ctl("scale_uni", on("scale_uni", <<S1(-2)>>), tpt(A, vmul(<<-2, -2, -2>>, pt)))
  \/ \E x \in Axs : ctl("rotate", on("rotate", <<S1(Q1a), P(x)>>), tpt(A, quarter(x, pt)))
  \/ \E x \in Axs : ctl("rotated", on("rotated", <<S1(Q1a), P(x)>>), quarter(x, tpt(A, pt)))
  \/ \E x \in Axs : ctl("spin", on("spin", <<S1(Q1a), P(x)>>), tpt(A, quarter(x, pt)))
  \/ \E x \in Axs : LET o == tpt(A, <<0, 0, 0>>) IN ctl("spinned", on("spinned", <<S1(Q1a), P(x)>>), vadd(o, quarter(x, vadd(tpt(A, pt), vneg(o)))))
  \/ \E w \in 1..3 : LET f == <<"rotate_x", "rotate_y", "rotate_z">>[w] x == T([i \in 1..3 |-> IF i = w THEN 1 ELSE 0]) IN ctl(f, to(f, <<S1(Q1a)>>), tpt(A, quarter(x, pt)))
  \/ \E w \in 1..3 : LET f == <<"rotated_x", "rotated_y", "rotated_z">>[w] x == T([i \in 1..3 |-> IF i = w THEN 1 ELSE 0]) IN ctl(f, to(f, <<S1(Q1a)>>), quarter(x, tpt(A, pt)))
  \/ \E x \in Axs : LET o == <<1, 2, 0>> IN ctl("rotate_at", on("rotate_at", <<P(o), S1(Q1a), P(x)>>), tpt(A, vadd(o, quarter(x, vadd(pt, vneg(o))))))
  \/ \E x \in Axs : LET o == <<1, 2, 0>> IN ctl("rotated_at", on("rotated_at", <<P(o), S1(Q1a), P(x)>>), vadd(o, quarter(x, vadd(tpt(A, pt), vneg(o)))))
  \/ \E x \in Axs : LET o == <<3, 0, -1>> IN A = Id4 /\ ctl("rotate_atm", Obj(Call("aff", 0, "rotate_atm", <<Out(16), P(o), S1(Q1a), P(x)>>), 1, 16), vadd(o, quarter(x, vadd(pt, vneg(o)))))
  \/ \E x \in Axs : A = Id4 /\ ctl("rotate_make", Obj(Call("aff", 0, "rotate_make", <<Out(16), S1(Q1a), P(x)>>), 1, 16), quarter(x, pt))
  \/ ctl("mul", to("mul", <<PM1(A)>>), tpt(A, tpt(A, pt)))
  \/ /\ \A i, j \in 1..3 : Is(Dot(A[i], A[j]), IF i = j THEN 1 ELSE 0)                    \* rigid: the fast inverse undoes it
     /\ ctl("inv_tr", on("inv_tr", << >>), tpt(IntM(on("inv_tr", << >>), 4), pt))
on2(f, args) == Obj(Call("aff2", 0, f, <<PM1(A2)>> \o args), 1, 9)
to2(f, args) == Res(Call("aff2", 0, f, <<PM1(A2)>> \o args \o <<Out(9)>>), Len(args) + 2)
p2 == <<pt[1], pt[2]>>
q2(p) == <<0 - p[2], p[1]>>
a2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
m2(a, b) == <<a[1] * b[1], a[2] * b[2]>>
ctl2(nm, m9, exp) == /\ A2' = IntM(m9, 3) /\ last' = <<nm, tpt2(A2', p2), exp>> /\ A' = A
Next3 ==
  \/ ctl2("translate2d", on2("translate2d", <<P(<<2, -1>>)>>), tpt2(A2, a2(<<2, -1>>, p2)))
  \/ ctl2("translate2d_to", to2("translate2d_to", <<P(<<2, -1>>)>>), tpt2(A2, a2(<<2, -1>>, p2)))
  \/ ctl2("translate2d_x", on2("translate2d_x", <<S1(3)>>), tpt2(A2, a2(<<3, 0>>, p2)))
  \/ ctl2("translate2d_y", on2("translate2d_y", <<S1(3)>>), tpt2(A2, a2(<<0, 3>>, p2)))
  \/ ctl2("translated2d", on2("translated2d", <<P(<<1, 4>>)>>), a2(<<1, 4>>, tpt2(A2, p2)))
  \/ ctl2("translated2d_x", on2("translated2d_x", <<S1(3)>>), a2(<<3, 0>>, tpt2(A2, p2)))
  \/ ctl2("translated2d_y", on2("translated2d_y", <<S1(3)>>), a2(<<0, 3>>, tpt2(A2, p2)))
  \/ ctl2("scale2d", on2("scale2d", <<P(<<2, -1>>)>>), tpt2(A2, m2(<<2, -1>>, p2)))
  \/ ctl2("scale2d_to", to2("scale2d_to", <<P(<<2, -1>>)>>), tpt2(A2, m2(<<2, -1>>, p2)))
  \/ ctl2("scale2d_uni", on2("scale2d_uni", <<S1(2)>>), tpt2(A2, m2(<<2, 2>>, p2)))
  \/ ctl2("scaled2d", on2("scaled2d", <<P(<<1, -2>>)>>), m2(<<1, -2>>, tpt2(A2, p2)))
  \/ ctl2("scaled2d_uni", on2("scaled2d_uni", <<S1(2)>>), m2(<<2, 2>>, tpt2(A2, p2)))
  \/ ctl2("rotate2d", on2("rotate2d", <<S1(Q1a)>>), tpt2(A2, q2(p2)))
  \/ ctl2("rotate2d_to", to2("rotate2d_to", <<S1(Q1a)>>), tpt2(A2, q2(p2)))
  \/ ctl2("rotated2d", on2("rotated2d", <<S1(Q1a)>>), q2(tpt2(A2, p2)))
Next == k < Depth /\ k' = k + 1 /\ pt' = pt /\ (Next4 \/ Next3)
Spec == Init /\ [][Next]_vars
Moves == k > 0 => last[2] = last[3]
Affine == /\ \A j \in 1..4 : A[j][4] = (IF j = 4 THEN 1 ELSE 0)
          /\ \A j \in 1..3 : A2[j][3] = (IF j = 3 THEN 1 ELSE 0)
Big == \E i, j \in 1..4 : A[i][j] > 60 \/ A[i][j] < -60
Bound == ~Big
(* decomposition recomposes, and its rotation is a rotation *)
orth == \A i, j \in 1..3 : i # j => Is(Dot(Take(A[i], 3), Take(A[j], 3)), 0)
Decomposes ==
  LET e == Call("aff", 0, "decompose", <<PM1(A), Out(4), Out(16), Out(3)>>)
      t == Res(e, 2) rm == AsMat(Res(e, 3), 4) sc == Res(e, 4)
  IN /\ ClM(MMul(MMul(Tr4(Take(t, 3)), rm), Diag4(sc)), A)
     /\ orth => /\ \A i, j \in 1..3 : Near(Dot(rm[i], rm[j]), IF i = j THEN 1 ELSE 0)
                /\ Near(Det(Upper3(rm)), 1)
     /\ LET u == Ret(Call("aff", 0, "uniscaled", <<PM1(A)>>)) IN May(u) <=> (\A i \in 1..3 : Is(VNorm2(Take(A[i], 3)), VNorm2(Take(A[1], 3))))
===============================================================================
