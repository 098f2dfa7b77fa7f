------------------------------ MODULE MC_Frustum ------------------------------
(* C18: the six planes, the eight corners and the box test of one frustum all   *)
(* describe the same volume.                                                    *)
EXTENDS MCLib
CONSTANT Full
VARIABLES c, p, q
vars == <<c, p, q>>
Views == <<Ident(4), << <<0, 1, 0, 0>>, <<0 - 1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<2, 0 - 1, 1, 1>> >>, << <<1, 0, 0, 0>>, <<0, 0, 0 - 1, 0>>, <<0, 1, 0, 0>>, <<0, 1, 2, 1>> >> >>
Init == c = << >> /\ p = << >> /\ q = << >>
Next == \/ c = << >> /\ c' \in [lh : 0..1, kind : 1..3, view : 1..3] /\ UNCHANGED <<p, q>>
        \/ c # << >> /\ p = << >> /\ p' \in {T(v) : v \in [1..3 -> IF Full THEN {-9, -4, -2, 0, 1, 3} ELSE {-4, 0, 1}]} /\ q' \in {T(v) : v \in [1..3 -> IF Full THEN {0, 2, 9} ELSE {0, 3}]} /\ c' = c
Spec == Init /\ [][Next]_vars
set == c # << >>
mat16(f, args) == AsMat(Res(CallC("clip", c.lh, 0, f, 0, args \o <<Out(16)>>), Len(args) + 1), 4)
A == MMul(CASE c.kind = 1 -> mat16("frustum", <<S1(-1), S1(2), S1(-1), S1(1), S1(1), S1(8)>>)
            [] c.kind = 2 -> mat16("ortho", <<S1(-4), S1(3), S1(-5), S1(5), S1(-1), S1(9)>>)
            [] c.kind = 3 -> mat16("perspective", <<S1(KD("1.1")), S1(2), S1(1), S1(10)>>), Views[c.view])
outs(e, k, cnt) == T([i \in 1..cnt |-> OutAt(e, Contract(e), k, 4 * (i - 1))])
Pl == outs(Call("frus", -1, "frustum_planes", <<PM1(A), Out(24)>>), 2, 6)
Co == outs(Call("frus", -1, "frustum_corners", <<PM1(Inverse(A)), Out(32)>>), 2, 8)
Cat(vs) == LET f[i \in 0..Len(vs)] == IF i = 0 THEN << >> ELSE f[i - 1] \o vs[i] IN f[Len(vs)]
side(k, pt) == Ge(Dot(Pl[k], pt), 0)
cond(k, pt) == LET h == MulV(A, pt) x == h[(k + 1) \div 2] IN IF k % 2 = 1 THEN Le(Opp(h[4]), x) ELSE Le(x, h[4])
Agrees(x, y) == (Must(x) => May(y)) /\ (Must(y) => May(x)) /\ (Must(Not3(x)) => May(Not3(y))) /\ (Must(Not3(y)) => May(Not3(x)))
Roughly(u, v) == \A i \in 1..Len(u) : Near(Widen(u[i], K("2e-3"), K("2e-3")), v[i])
Planes == set /\ p # << >> /\ q = <<0, 0, 0>> => \A k \in 1..6 : Agrees(side(k, p \o <<1>>), cond(k, p \o <<1>>))
Unit == set /\ p = << >> => \A k \in 1..6 : Cl(VNorm2(Take(Pl[k], 3)), 1)
(* a corner lies on its three planes, inside the others, and projects to a corner of the clip cube *)
Corners == set /\ p = << >> => \A i \in 1..8 :
  /\ Cl(Co[i][4], 1)
  /\ LET h == MulV(A, Co[i]) IN Roughly(T([r \in 1..3 |-> Div(h[r], h[4])]), ClipCorner[i])
  /\ \A k \in 1..6 : LET on == ClipCorner[i][(k + 1) \div 2] = (IF k % 2 = 1 THEN -1 ELSE 1) dd == Dot(Pl[k], Co[i]) IN
       IF on THEN Roughly(<<dd>>, <<0>>) ELSE Must(Gt(dd, 0))
Middle == set /\ p = << >> => LET m == Res(Call("frus", -1, "frustum_center", <<P(Cat(Co)), Out(4)>>), 2)
                              b == Res(Call("frus", -1, "frustum_box", <<P(Cat(Co)), PM1(Views[3]), Out(6)>>), 3)
                              pts == T([i \in 1..8 |-> MulV(Views[3], Co[i])])
                              at(s) == outs(Call("frus", -1, "frustum_corners_at", <<P(Cat(Co)), S1(s), S1(10), Out(16)>>), 4, 4) IN
  /\ \A k \in 1..6 : Must(Gt(Dot(Pl[k], m), 0))
  /\ \A i \in 1..8 : \A r \in 1..3 : May(Le(b[r], pts[i][r])) /\ May(Ge(b[r + 3], pts[i][r]))
  /\ \A r \in 1..3 : (\E i \in 1..8 : Near(b[r], pts[i][r])) /\ (\E i \in 1..8 : Near(b[r + 3], pts[i][r]))
  /\ \A i \in 1..4 : Roughly(at(0)[i], Co[i])                      \* at no distance: the near corners
  /\ (c.kind # 1 => \A i \in 1..4 : Roughly(at(10)[i], Co[i + 4]))  \* (symmetric) at the full distance: the far corners
  /\ (c.kind # 1 => \A i \in 1..4 : Roughly(at(5)[i], Map1(Half, VAdd(Co[i], Co[i + 4]))))
(* the box test never loses a box that has a point inside, and rejects what lies behind a plane *)
hi == T([i \in 1..3 |-> p[i] + q[i]])
meets == Ret(Call("frus", -1, "aabb_frustum", <<P(p \o hi), P(Cat(Pl))>>))
cornersof == T([k \in 1..8 |-> T([i \in 1..4 |-> IF i = 4 THEN 1 ELSE IF Field(k - 1, i - 1, 1) = 1 THEN hi[i] ELSE p[i]])])
Culls == set /\ p # << >> =>
  /\ (\E k \in 1..8 : \A i \in 1..6 : Must(cond(i, cornersof[k]))) => May(meets)
  /\ (\E i \in 1..6 : \A k \in 1..8 : Must(Not3(cond(i, cornersof[k])))) => May(Not3(meets))
  /\ (\A i \in 1..6 : \E k \in 1..8 : Must(cond(i, cornersof[k]))) => May(meets)
Normal == p # << >> => LET n == Res(Call("frus", -1, "plane_normalize", <<P(p \o <<7>>)>>), 1) IN
  IF p = <<0, 0, 0>> THEN IsV(n, <<0, 0, 0, 0>>) ELSE Cl(VNorm2(Take(n, 3)), 1) /\ \A i \in 1..4 : Cl(Mul(n[i], VNorm(p)), (p \o <<7>>)[i])
===============================================================================
