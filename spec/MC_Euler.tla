-------------------------------- MODULE MC_Euler ------------------------------
(* C13: matrix and quaternion of the same Euler angles denote the same rotation *)
(* in all six orders; the extraction relation admits the angles it came from.   *)
EXTENDS MCLib
VARIABLES g, o
vars == <<g, o>>
Orders == {<<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>>}
Init == g = << >> /\ o = << >>
Next == \/ g = << >> /\ g' \in {T(v) : v \in [1..3 -> -5..6]} /\ o' = << >>
        \/ g # << >> /\ o = << >> /\ o' \in Orders /\ g' = g
Spec == Init /\ [][Next]_vars
Name(x) == LET c == <<"x", "y", "z">> IN c[x[1] + 1] \o c[x[2] + 1] \o c[x[3] + 1]
Ang == T([i \in 1..3 |-> Mul(g[i], KD("0.52359877559829887308"))])        \* multiples of 30 degrees
code == Ret(Call("euler", -1, "euler_order", <<Q1(o)>>))
Emat == AsMat(Res(Call("euler", -1, "euler_" \o Name(o), <<P(Ang), Out(16)>>), 2), 4)
Equat(lh) == Res(CallC("euler", lh, -1, "euler_" \o Name(o) \o "_quat", 0, <<P(Ang), Out(4)>>), 2)
mz == <<Ang[1], Ang[2], Opp(Ang[3])>>
Denotes == o # << >> =>
  /\ ClM(QMat(Equat(0)), Upper3(Emat)) /\ Cl(VNorm2(Equat(0)), 1)
  /\ ClV(Equat(1), EulerQuat(mz, o))
  /\ ClM(AsMat(Res(Call("euler", -1, "euler_by_order", <<P(Ang), N1(code), Out(16)>>), 3), 4), Emat)
  /\ Cl(Det(Upper3(Emat)), 1) /\ ClM(MMul(Upper3(Emat), Transpose(Upper3(Emat))), Ident(3))
  /\ ClV(MulV(Emat, <<0, 0, 0, 1>>), <<0, 0, 0, 1>>)
  /\ LET ax == o[3] + 1 v == T([i \in 1..3 |-> IF i = ax THEN 1 ELSE 0]) IN      \* the last axis is turned first: it stays in place
       ClV(MulV(Upper3(Emat), v), MulV(MMul(AxisRot(o[1], Ang[o[1] + 1]), AxisRot(o[2], Ang[o[2] + 1])), v))
  /\ (o = <<0, 1, 2>> => ClM(AsMat(Res(Call("euler", -1, "euler", <<P(Ang), Out(16)>>), 2), 4), Emat))
  /\ (o = <<0, 1, 2>> /\ g[2] \in -2..2 =>
       LET e == Call("euler", -1, "euler_angles", <<PM1(Emat), Out(3)>>)
           alt(d) == [w |-> T([i \in 1..3 |-> <<e.a[2] + i - 1, d[i]>>]), ret |-> 0]
       IN /\ EulerRel(e, alt(Ang))
          /\ ~EulerRel(e, alt(<<Ang[1], Add(Ang[2], K("0.06")), Ang[3]>>))
          /\ ~EulerRel(e, alt(<<Add(Ang[1], K("0.06")), Ang[2], Ang[3]>>)))
Codes == o # << >> => \A x \in Orders : (x = o) <=> (Ret(Call("euler", -1, "euler_order", <<Q1(x)>>)) = code)
===============================================================================
