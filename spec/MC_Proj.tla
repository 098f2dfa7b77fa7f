-------------------------------- MODULE MC_Proj -------------------------------
(* C17: unprojecting undoes projecting; the clip volume fills the viewport and  *)
(* the depth range; the pick matrix blows the picked region up to the clip cube.*)
EXTENDS MCLib
VARIABLES p, c
vars == <<p, c>>
Views == <<Ident(4), << <<0, 1, 0, 0>>, <<0 - 1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<2, 0 - 1, 1, 1>> >>, << <<1, 0, 0, 0>>, <<0, 0, 0 - 1, 0>>, <<0, 1, 0, 0>>, <<0, 1, 2, 1>> >> >>
Ports == << <<0, 0, 4, 4>>, <<10, 0 - 20, 640, 360>>, <<1, 2, 3, 5>> >>
Init == p = << >> /\ c = << >>
CONSTANT B
Next == \/ c = << >> /\ c' \in [lh : 0..1, zo : 0..1, kind : 1..3, view : 1..3, vp : 1..3] /\ p' = p
        \/ c # << >> /\ p = << >> /\ p' \in {T(v) : v \in [1..3 -> (0 - B)..B]} /\ c' = c
Spec == Init /\ [][Next]_vars
mat16(f, args) == AsMat(Res(CallC("clip", c.lh, c.zo, f, 0, args \o <<Out(16)>>), Len(args) + 1), 4)
Pm == CASE c.kind = 1 -> mat16("frustum", <<S1(-1), S1(2), S1(-1), S1(1), S1(1), S1(8)>>)
        [] c.kind = 2 -> mat16("ortho", <<S1(-4), S1(3), S1(-5), S1(5), S1(-1), S1(9)>>)
        [] c.kind = 3 -> mat16("perspective", <<S1(KD("1.1")), S1(2), S1(1), S1(10)>>)
A == MMul(Pm, Views[c.view])
vp == Ports[c.vp]
pj(f, args) == CallC("proj", -1, c.zo, f, c.zo, args)
w == MulV(A, p \o <<1>>)[4]
seen == p # << >> /\ Must(Gt(Abs(w), K("0.01")))
win == Res(pj("project", <<P(p), PM1(A), P(vp), Out(3)>>), 4)
Roughly(u, v) == \A i \in 1..Len(u) : Near(Widen(u[i], K("1e-3"), K("1e-3")), v[i])
Inverse_of == seen =>
  /\ Roughly(Res(pj("unproject", <<P(win), PM1(A), P(vp), Out(3)>>), 4), p)
  /\ Roughly(Res(pj("unprojecti", <<P(win), PM1(Inverse(A)), P(vp), Out(3)>>), 4), p)
  /\ Cl(Ret(pj("project_z", <<P(p), PM1(A)>>)), win[3])
(* inside the clip volume exactly when inside the viewport and the depth range *)
inclip == LET q == MulV(A, p \o <<1>>) lowz == IF c.zo = 1 THEN 0 ELSE Opp(w) IN
  All3(<<Gt(w, 0), Le(Opp(w), q[1]), Le(q[1], w), Le(Opp(w), q[2]), Le(q[2], w), Le(lowz, q[3]), Le(q[3], w)>>)
inwin == All3(<<Le(vp[1], win[1]), Le(win[1], vp[1] + vp[3]), Le(vp[2], win[2]), Le(win[2], vp[2] + vp[4]), Le(0, win[3]), Le(win[3], 1)>>)
Fills == seen /\ Must(Gt(w, 0)) => /\ (Must(inclip) => May(inwin)) /\ (Must(inwin) => May(inclip))
(* picking: the region of size z around k fills the clip square *)
Picks == p # << >> /\ c.kind = 1 /\ c.view = 1 /\ c.lh = 0 =>
  LET k == <<p[1] + 5, p[2]>> z == <<p[3] + 4, 2>>
      pm == AsMat(Res(pj("pickmatrix", <<P(k), P(z), P(vp), Out(16)>>), 4), 4)
  IN \A i, j \in {-1, 1} :
       LET q == <<Add(k[1], Half(i * z[1])), Add(k[2], Half(j * z[2]))>>
           ndc == <<Sub(Div(Mul(2, Sub(q[1], vp[1])), vp[3]), 1), Sub(Div(Mul(2, Sub(q[2], vp[2])), vp[4]), 1), 0, 1>>
       IN Roughly(MulV(pm, ndc), <<i, j, 0, 1>>)
===============================================================================
