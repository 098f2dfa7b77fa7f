------------------------------- MODULE MC_IVec --------------------------------
(* C02: integer vectors are modules over the integers, division truncates and   *)
(* leaves the remainder's sign with the dividend, min and max form a lattice.   *)
EXTENDS MCLib
CONSTANT N
VARIABLES a, b, s
vars == <<a, b, s>>
Rg == IF N = 2 THEN -4..4 ELSE IF N = 3 THEN -2..2 ELSE -1..1
D0 == T([i \in 1..N |-> 10 * i])
Init == a = << >> /\ b = << >> /\ s = 0
Next == \/ a = << >> /\ a' \in {T(v) : v \in [1..N -> Rg]} /\ UNCHANGED <<b, s>>
        \/ a # << >> /\ b = << >> /\ b' \in {T(v) : v \in [1..N -> Rg]} /\ s' \in {-3, 0, 2} /\ a' = a
Spec == Init /\ [][Next]_vars
on == b # << >>
fn(f, args) == Call("ivec", N, f, args)
two(f) == Res(fn(f, <<Q1(a), Q1(b), Q1(D0)>>), 3)
one(f) == Res(fn(f, <<Q1(a), N1(s), Q1(D0)>>), 3)
z(Op(_)) == T([i \in 1..N |-> Op(i)])
Ring == on =>
  /\ z(LAMBDA i : two("add")[i] - b[i]) = a /\ z(LAMBDA i : two("sub")[i] + b[i]) = a /\ z(LAMBDA i : one("adds")[i] - s) = a /\ z(LAMBDA i : one("subs")[i] + s) = a
  /\ two("mul") = z(LAMBDA i : a[i] * b[i]) /\ one("scale") = Res(fn("mul", <<Q1(a), Q1(Res(fn("fill", <<Q1(D0), N1(s)>>), 1)), Q1(D0)>>), 3)
  /\ \A f \in {"add", "sub", "mul", "max", "min"} :
       /\ (f # "add" => two(f \o "add") = z(LAMBDA i : D0[i] + (IF f = "max" THEN two("maxv")[i] ELSE IF f = "min" THEN two("minv")[i] ELSE two(f)[i])))
       /\ (f # "add" => two(f \o "sub") = z(LAMBDA i : D0[i] - (IF f = "max" THEN two("maxv")[i] ELSE IF f = "min" THEN two("minv")[i] ELSE two(f)[i])))
       /\ (f = "add" => two("addadd") = z(LAMBDA i : D0[i] + two("add")[i]) /\ two("addsub") = z(LAMBDA i : D0[i] - two("add")[i]))
  /\ \A f \in {"add", "sub", "mul"} : LET r == IF f = "mul" THEN one("scale") ELSE one(f \o "s") IN
       one(f \o "adds") = z(LAMBDA i : D0[i] + r[i]) /\ one(f \o "subs") = z(LAMBDA i : D0[i] - r[i])
Division == on /\ (\A i \in 1..N : b[i] # 0) =>
  /\ \A i \in 1..N : LET qq == two("div")[i] r == two("mod")[i] IN
       a[i] = qq * b[i] + r /\ IAbs(r) < IAbs(b[i]) /\ (r = 0 \/ (r > 0) = (a[i] > 0)) /\ IAbs(qq) <= IAbs(a[i])
  /\ (s # 0 => one("divs") = Res(fn("div", <<Q1(a), Q1(Res(fn("fill", <<Q1(D0), N1(s)>>), 1)), Q1(D0)>>), 3))
Order3 == on =>
  /\ \A i \in 1..N : two("maxv")[i] >= a[i] /\ two("maxv")[i] >= b[i] /\ two("maxv")[i] \in {a[i], b[i]} /\ two("minv")[i] + two("maxv")[i] = a[i] + b[i]
  /\ Must(Ret(fn("eqv", <<Q1(a), Q1(b)>>))) = (a = b) /\ Must(Ret(fn("eq", <<Q1(a), N1(s)>>))) = (a = z(LAMBDA i : s))
  /\ LET cl == Res(fn("clamp", <<Q1(a), N1(-1), N1(1)>>), 1) IN \A i \in 1..N : cl[i] \in -1..1 /\ (a[i] \in -1..1 => cl[i] = a[i]) /\ (a[i] > 1 => cl[i] = 1) /\ (a[i] < -1 => cl[i] = -1)
  /\ LET ab == Res(fn("abs", <<Q1(a), Q1(D0)>>), 2) IN \A i \in 1..N : ab[i] >= 0 /\ ab[i] \in {a[i], 0 - a[i]}
Metrics == on =>
  /\ (N = 2 => LET cx == Ret(fn("cross", <<Q1(a), Q1(b)>>)) dt == Ret(fn("dot", <<Q1(a), Q1(b)>>)) IN
        /\ cx * cx + dt * dt = Ret(fn("norm2", <<Q1(a)>>)) * Ret(fn("norm2", <<Q1(b)>>))
        /\ Ret(fn("cross", <<Q1(b), Q1(a)>>)) = 0 - cx)
  /\ (N > 2 => LET n2 == Ret(fn("norm2", <<Q1(a)>>)) r == Nearest(Ret(fn("norm", <<Q1(a)>>))) IN r * r <= n2 /\ n2 < (r + 1) * (r + 1))
  /\ Cl(Sq(Ret(fn("distance", <<Q1(a), Q1(b)>>))), Ret(fn("distance2", <<Q1(a), Q1(b)>>)))
  /\ Ret(fn("distance2", <<Q1(a), Q1(b)>>)) = Ret(fn("norm2", <<Q1(two("sub"))>>))
===============================================================================
