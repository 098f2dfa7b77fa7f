-------------------------------- MODULE MC_Ray --------------------------------
(* C20: ray casts against triangles and spheres agree with what hitting means;  *)
(* spheres compare and merge as the sets of points they are.                    *)
EXTENDS MCLib
VARIABLES k, a, b
vars == <<k, a, b>>
Init == k = 0 /\ a = << >> /\ b = << >>
Rg == -1..2
Next == \/ k = 0 /\ k' \in {-1, -2, -3} /\ b' = b /\
              a' \in (CASE k' = -1 -> {T(v) : v \in [1..5 -> Rg]} [] k' = -2 -> {T(v) : v \in [1..3 -> -3..3]} [] k' = -3 -> {T(v) : v \in [1..4 -> 0..2]})
        \/ k < 0 /\ k' = 0 - k /\ a' = a /\
              b' \in (CASE k = -1 -> {T(v) : v \in [1..3 -> Rg]} [] k = -2 -> {<<d, r>> : d \in 1..7, r \in 0..3} [] k = -3 -> {T(v) : v \in [1..4 -> 0..3]})
Spec == Init /\ [][Next]_vars
fn(f, args) == Call("ray", -1, f, args)
Holds(cnd, prop) == IF prop THEN May(cnd) ELSE May(Not3(cnd))
(* a triangle in general position, a ray from an integer point *)
V0 == <<0, 0, 1>>  V1 == <<3, a[5], 1>>  V2 == <<a[4], 3, 2>>
o == <<a[1], a[2], a[3]>>
dd == b
vol(u, v, w) == Nearest(Dot(u, Cross(v, w)))                \* the signed volume: an integer here
Tri == k = 1 /\ b # <<0, 0, 0>> =>
  LET r0 == VSub(V0, o) r1 == VSub(V1, o) r2 == VSub(V2, o)
      s1 == vol(dd, r0, r1) s2 == vol(dd, r1, r2) s3 == vol(dd, r2, r0)
      nn == Cross(VSub(V1, V0), VSub(V2, V0))
      den == Nearest(Dot(nn, dd)) num == Nearest(Dot(nn, VSub(V0, o)))
      through == den # 0 /\ ((s1 >= 0 /\ s2 >= 0 /\ s3 >= 0) \/ (s1 <= 0 /\ s2 <= 0 /\ s3 <= 0))
      ahead == num * den > 0
      e == fn("ray_triangle", <<P(o), P(dd), P(V0), P(V1), P(V2), Out(1)>>)
      bits(d) == [w |-> << <<e.a[6], d>> >>, ret |-> 1]
  IN /\ Holds(Ret(e), through /\ ahead)
     /\ (through /\ ahead => /\ RayRel(e, bits(Div(num, den))) /\ ~RayRel(e, bits(Add(Div(num, den), K("0.01")))))
(* unit directions *)
Dirs == << <<1, 0, 0>>, <<0, 0 - 1, 0>>, <<0, 0, 1>>, <<Div(3, 5), Div(4, 5), 0>>, <<0, Div(0 - 5, 13), Div(12, 13)>>, <<Div(1, 3), Div(2, 3), Div(0 - 2, 3)>>, <<Div(6, 7), Div(0 - 3, 7), Div(2, 7)>> >>
Sph == k = 2 =>
  LET d == Dirs[b[1]] r == b[2] s == <<0, 0, 0, r>>
      e == fn("ray_sphere", <<P(a), P(d), P(s), Out(1), Out(1)>>)
      t == RayOf(e).t h == Ret(e)
      at(x) == Res(fn("ray_at", <<P(a), P(d), S1(x), Out(3)>>), 4)
      tc == Opp(Dot(a, d)) far == Sub(VNorm2(at(tc)), r * r)              \* closest approach
      alt(x, y) == [w |-> << <<e.a[4], x>>, <<e.a[5], y>> >>, ret |-> 1]
      loosely(x, y) == Near(Widen(x, K("1e-3"), K("1e-3")), y)
  IN /\ (Must(h) => \A i \in 1..2 : loosely(VNorm2(at(t[i])), r * r))
     /\ (Must(Gt(far, 0)) => May(Not3(h)))
     /\ (Must(Lt(far, 0)) /\ Must(Gt(VNorm2(a), r * r)) => Holds(h, Must(Gt(tc, 0))))
     /\ (Must(Lt(VNorm2(a), r * r)) => May(h) /\ May(Le(t[1], 0)) /\ May(Ge(t[2], 0)))
     /\ (Must(h) => May(Le(t[1], t[2])) /\ loosely(Add(t[1], t[2]), Mul(2, tc)))
     /\ (Must(h) /\ r > 0 => ~RayRel(e, alt(t[1], Add(t[2], K("0.05")))) /\ ~RayRel(e, alt(Sub(t[1], K("0.05")), t[2])))
Spheres == k = 3 =>
  LET m == Res(fn("sphere_merge", <<P(a), P(b), Out(4)>>), 3) c3(v) == Take(v, 3) gap == Dist(c3(a), c3(b))
      A == << <<0, 2, 0, 0>>, <<0 - 1, 1, 0, 0>>, <<1, 0, 0 - 3, 0>>, <<4, 5, 6, 1>> >> IN
  /\ \A s \in {a, b} : May(Le(Add(Dist(c3(m), c3(s)), s[4]), m[4]))
  /\ Holds(Ret(fn("sphere_sphere", <<P(a), P(b)>>)), Must(Le(VNorm2(VSub(c3(a), c3(b))), (a[4] + b[4]) * (a[4] + b[4]))))
  /\ Holds(Ret(fn("sphere_point", <<P(a), P(c3(b))>>)), Must(Le(VNorm2(VSub(c3(a), c3(b))), a[4] * a[4])))
  /\ Is(Ret(fn("sphere_radii", <<P(a)>>)), a[4])
  /\ LET t == Res(fn("sphere_transform", <<P(a), PM1(A), Out(4)>>), 3) IN IsV(c3(t), Take(MulV(A, c3(a) \o <<1>>), 3)) /\ Is(t[4], a[4])
===============================================================================
