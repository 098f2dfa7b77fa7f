-------------------------------- MODULE MC_Quat -------------------------------
(* C10, C11, C12: Hamilton's rules, the quaternion/matrix correspondence and    *)
(* the interpolation arcs, over integer quaternions and over the 24 unit         *)
(* Hurwitz quaternions (the rotations of the cube's diagonals and faces).        *)
EXTENDS MCLib
VARIABLES p, q, m
vars == <<p, q, m>>
IntQ == {T(v) : v \in [1..4 -> {-1, 0, 2}]}
Two == {-1, 1}
Units2 == {T([i \in 1..4 |-> IF i = j THEN 2 * s ELSE 0]) : j \in 1..4, s \in Two} \cup {T(v) : v \in [1..4 -> Two]}      \* doubled
Init == p = << >> /\ q = << >> /\ m = "none"
Next == \/ m = "none" /\ m' \in {"int", "unit"} /\ p' \in (IF m' = "int" THEN IntQ ELSE Units2) /\ q' = << >>
        \/ m # "none" /\ q = << >> /\ q' \in (IF m = "int" THEN IntQ ELSE Units2) /\ UNCHANGED <<p, m>>
Spec == Init /\ [][Next]_vars
qq(f, x, y) == Res(Call("quat", -1, f, <<P(x), P(y), Out(4)>>), 3)
q1(f, x) == Res(Call("quat", -1, f, <<P(x), Out(4)>>), 2)
r1(f, x) == Ret(Call("quat", -1, f, <<P(x)>>))
mul(x, y) == qq("mul", x, y)
cj(x) == q1("conjugate", x)
id == Res(Call("quat", -1, "identity", <<Out(4)>>), 1)
others == {<<1, 0, 0, 0>>, <<0, 1, -1, 2>>, <<0, 0, 0, 3>>}
zero(x) == \A i \in 1..4 : x[i] = 0
Algebra == (m = "int" /\ q # << >>) => LET pq == mul(p, q) IN
  /\ \A r \in others : IsV(mul(pq, r), mul(p, mul(q, r)))
  /\ IsV(mul(p, id), p) /\ IsV(mul(id, p), p)
  /\ IsV(cj(pq), mul(cj(q), cj(p)))
  /\ Is(VNorm2(pq), Mul(VNorm2(p), VNorm2(q)))
  /\ IsV(mul(p, cj(p)), <<0, 0, 0, VNorm2(p)>>)
  /\ IsV(qq("add", p, q), VAdd(p, q)) /\ IsV(qq("sub", qq("add", p, q), q), p)
  /\ Is(Ret(Call("quat", -1, "dot", <<P(p), P(q)>>)), mul(p, cj(q))[4])
  /\ IsV(mul(p, qq("add", q, <<1, 2, 0, -1>>)), qq("add", mul(p, q), mul(p, <<1, 2, 0, -1>>)))
  /\ ~zero(p) => ClV(mul(p, q1("inv", p)), id) /\ ClV(mul(q1("inv", p), p), id) /\ ClV(mul(q1("inv", p), pq), q)
  /\ LET u == q1("normalize_to", p) IN IF zero(p) THEN IsV(u, id) ELSE Cl(VNorm2(u), 1) /\ ClV(VScale(u, r1("norm", p)), p)
  /\ Is(r1("real", p), p[4]) /\ IsV(Res(Call("quat", -1, "imag", <<P(p), Out(3)>>), 2), Im(p)) /\ Cl(Sq(r1("imaglen", p)), VNorm2(Im(p)))
  /\ ~zero(p) /\ (\E i \in 1..3 : p[i] # 0) =>                    \* axis and angle rebuild the rotation
       LET u == q1("normalize_to", p) ax == Res(Call("quat", -1, "axis", <<P(p), Out(3)>>), 2) an == r1("angle", u) IN
       ClV(Res(Call("quat", -1, "quatv", <<Out(4), S1(an), P(ax)>>), 1), u)
(* a unit Hurwitz quaternion *)
h(x) == VScale(x, K("0.5"))
mat(f, n, x) == AsMat(Res(Call("qrot", n, f, <<P(x), Out(n * n)>>), 2), n)
rotv(x, v) == Res(Call("qrot", -1, "rotatev", <<P(x), P(v), Out(3)>>), 3)
vs == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<2, -1, 3>>}
Rotation == (m = "unit" /\ q # << >>) => LET a == h(p) b == h(q) MA == mat("mat3", 3, a) IN
  /\ ClM(MMul(MA, mat("mat3", 3, b)), mat("mat3", 3, mul(a, b)))
  /\ ClM(MMul(MA, Transpose(MA)), Ident(3)) /\ Cl(Det(MA), 1)
  /\ ClM(mat("mat3", 3, VNeg(a)), MA)
  /\ ClM(mat("mat3t", 3, a), Transpose(MA)) /\ ClM(mat("mat3t", 3, a), mat("mat3", 3, cj(a)))
  /\ ClM(Upper3(mat("mat4", 4, a)), MA) /\ ClM(mat("mat4t", 4, a), Transpose(mat("mat4", 4, a)))
  /\ \A v \in vs : /\ ClV(rotv(a, v), MulV(MA, v))
                   /\ ClV(rotv(a, v), Take(mul(mul(a, v \o <<0>>), cj(a)), 3))
                   /\ ClV(rotv(mul(a, b), v), rotv(a, rotv(b, v)))
  /\ Represents(a, MA, K("3e-6"))                                     \* what mat3_quat may return ...
  /\ (~IsV(p, q) /\ ~IsV(p, VNeg(q)) => ~Represents(b, MA, K("3e-6")))  \* ... and nothing else
  /\ LET x == AsMat(Obj(Call("qrot", -1, "rotate_at", <<PM1(Mat4of3(mat("mat3", 3, b))), P(a), P(<<1, 2, -1>>)>>), 1, 16), 4)
         y == AsMat(Obj(Call("qrot", -1, "rotate_atm", <<Out(16), P(a), P(<<1, 2, -1>>)>>), 1, 16), 4) IN
     /\ ClM(x, MMul(Mat4of3(mat("mat3", 3, b)), y)) /\ ClV(MulV(y, <<1, 2, -1, 1>>), <<1, 2, -1, 1>>)        \* the pivot stays
     /\ ClM(Upper3(y), MA)
  /\ LET x == AsMat(Res(Call("qrot", -1, "look", <<P(<<3, -1, 2>>), P(a), Out(16)>>), 3), 4) IN ClV(MulV(x, <<3, -1, 2, 1>>), <<0, 0, 0, 1>>) /\ ClM(Upper3(x), Transpose(MA))
Evt(f, a, b, t) == Call("qint", -1, f, <<P(a), P(b), S1(t), Out(4)>>)
(* the relation admits exactly the point of the arc: `d` fulfils it, neighbours do not *)
alt(e, d) == [w |-> T([i \in 1..4 |-> <<e.a[4] + i - 1, Nm(d[i])>>]), ret |-> 0]
ok(f, a, b, t, d) == LET e == Evt(f, a, b, t) IN QIntRel(e, alt(e, d))
off(d) == T([i \in 1..4 |-> IF i = 1 THEN Add(d[1], K("0.01")) ELSE d[i]])
near(x, y) == ClV(x, y) \/ ClV(x, VNeg(y))
Ts == <<0, K("0.25"), K("0.5"), K("0.75"), 1>>
Arcs == (m = "unit" /\ q # << >>) => LET a == h(p) b == h(q) c == Dot(a, b) same == IsV(p, q) \/ IsV(p, VNeg(q)) IN
  /\ ClV(Res(Evt("lerp", a, b, 0), 4), a) /\ ClV(Res(Evt("lerp", a, b, 1), 4), b)
  /\ ClV(Res(Evt("lerpc", a, b, -2), 4), a) /\ ClV(Res(Evt("lerpc", a, b, 3), 4), b)
  /\ ~same => /\ ok("slerp", a, b, 1, b) /\ ok("slerp", a, b, 0, IF May(Lt(c, 0)) THEN VNeg(a) ELSE a)
              /\ ok("slerp_longest", a, b, 1, b) /\ ok("slerp_longest", a, b, 0, IF May(Lt(c, 0)) THEN a ELSE VNeg(a))
              /\ \A i \in 1..5 : LET t == Ts[i] s == IF May(Lt(c, 0)) THEN VNeg(a) ELSE a ang == Acos(Abs(c)) d == Arc(s, b, Abs(c), t) l == Arc(VNeg(s), b, Opp(Abs(c)), t) IN
                   /\ ok("slerp", a, b, t, d) /\ ~ok("slerp", a, b, t, off(d))
                   /\ Near(VNorm2(d), 1) /\ Near(Dot(d, s), Cos(Mul(ang, t))) /\ Near(Dot(d, b), Cos(Mul(ang, Sub(1, t))))     \* constant speed on the short arc
                   /\ ok("slerp_longest", a, b, t, l) /\ ~ok("slerp_longest", a, b, t, off(l)) /\ Near(VNorm2(l), 1)
                   /\ Near(Dot(l, VNeg(s)), Cos(Mul(Sub(Pi, ang), t)))                                                        \* ... and on the long one
                   /\ (i \in 2..4 /\ ~Near(c, 0) => ~ok("slerp", a, b, t, l) /\ ~ok("slerp_longest", a, b, t, d))
===============================================================================
