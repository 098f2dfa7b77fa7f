-------------------------------- MODULE MC_Vec --------------------------------
(* C01, C03, C04, C05: laws of the vector contracts, over every pair of        *)
(* vectors with entries in R1 and every scalar in Sc.                           *)
EXTENDS MCLib
CONSTANT N
R1 == IF N = 2 THEN -3..3 ELSE IF N = 3 THEN -2..2 ELSE {-1, 0, 2}
Sc == IF N = 3 THEN {-2, 3} ELSE {-2, 0, 3}
VARIABLES a, b, s
vars == <<a, b, s>>
All == {T(v) : v \in Vecs(N, R1)}
Init == a \in All /\ b = << >> /\ s = 0
Next == b = << >> /\ b' \in All /\ s' \in Sc /\ a' = a
Spec == Init /\ [][Next]_vars

vv(f, x, y) == Res(Call("varith", N, f, <<P(x), P(y), Out(N)>>), 3)
vs(f, x, y) == Res(Call("varith", N, f, <<P(x), S1(y), Out(N)>>), 3)
vd(f, x, y, z) == Res(Call("varith", N, f, <<P(x), P(y), P(z)>>), 3)
vsd(f, x, y, z) == Res(Call("varith", N, f, <<P(x), S1(y), P(z)>>), 3)
v1(f, x) == Ret(Call("varith", N, f, <<P(x)>>))
v2(f, x, y) == Ret(Call("varith", N, f, <<P(x), P(y)>>))
neg(x) == Res(Call("varith", N, "negate_to", <<P(x), Out(N)>>), 2)
fill(x) == Res(Call("varith", N, "fill", <<Out(N), S1(x)>>), 1)
zero == Res(Call("varith", N, "zero", <<Out(N)>>), 1)
d == T([i \in 1..N |-> 2 * b[((i % N) + 1)] - a[i] + s])         \* some accumulator

LRing== /\ IsV(vv("add", a, b), vv("add", b, a)) /\ IsV(vv("mul", a, b), vv("mul", b, a))
        /\ IsV(vv("sub", vv("add", a, b), b), a) /\ IsV(vv("add", a, zero), a) /\ IsV(vv("sub", a, a), zero)
        /\ IsV(neg(neg(a)), a) /\ IsV(vv("sub", a, b), vv("add", a, neg(b)))
        /\ IsV(vs("scale", a, s), vv("mul", a, fill(s))) /\ IsV(vs("adds", a, s), vv("add", a, fill(s))) /\ IsV(vs("subs", a, s), vv("sub", a, fill(s)))
        /\ IsV(vs("scale", vv("add", a, b), s), vv("add", vs("scale", a, s), vs("scale", b, s)))
        /\ (s # 0 => ClV(vs("divs", vs("scale", a, s), s), a))
        /\ ((\A i \in 1..N : b[i] # 0) => ClV(vv("div", vv("mul", a, b), b), a))
LFused== /\ IsV(vd("addadd", a, b, d), vv("add", d, vv("add", a, b)))
         /\ IsV(vd("subadd", a, b, d), vv("add", d, vv("sub", a, b)))
         /\ IsV(vd("muladd", a, b, d), vv("add", d, vv("mul", a, b)))
         /\ IsV(vsd("muladds", a, s, d), vv("add", d, vs("scale", a, s)))
         /\ IsV(vd("maxadd", a, b, d), vv("add", d, vv("maxv", a, b)))
         /\ IsV(vd("minadd", a, b, d), vv("add", d, vv("minv", a, b)))
         /\ IsV(vd("subsub", a, b, d), vv("sub", d, vv("sub", a, b)))
         /\ IsV(vd("addsub", a, b, d), vv("sub", d, vv("add", a, b)))
         /\ IsV(vd("mulsub", a, b, d), vv("sub", d, vv("mul", a, b)))
         /\ IsV(vsd("mulsubs", a, s, d), vv("sub", d, vs("scale", a, s)))
         /\ IsV(vd("maxsub", a, b, d), vv("sub", d, vv("maxv", a, b)))
         /\ IsV(vd("minsub", a, b, d), vv("sub", d, vv("minv", a, b)))
         /\ IsV(vv("add", vv("maxv", a, b), vv("minv", a, b)), vv("add", a, b))
LMetric== LET ab == v2("dot", a, b) IN
  /\ Is(ab, v2("dot", b, a)) /\ Is(v2("dot", vs("scale", a, s), b), Mul(s, ab)) /\ Is(v2("dot", vv("add", a, d), b), Add(ab, v2("dot", d, b)))
  /\ Is(v1("norm2", a), v2("dot", a, a)) /\ Cl(Sq(v1("norm", a)), v1("norm2", a))
  /\ Must(Le(Sq(ab), Mul(v1("norm2", a), v1("norm2", b))))
  /\ May(Le(v1("norm", vv("add", a, b)), Add(v1("norm", a), v1("norm", b))))
  /\ Is(v2("distance2", a, b), v1("norm2", vv("sub", a, b))) /\ Cl(v2("distance", a, b), v1("norm", vv("sub", a, b)))
  /\ May(Le(v1("norm_inf", a), v1("norm", a))) /\ May(Le(v1("norm", a), v1("norm_one", a)))
  /\ (\E i \in 1..N : a[i] # 0) <=> Must(Gt(v1("norm2", a), 0))
LCrosses ==
  /\ N = 3 => LET x == vv("cross", a, b) IN
       /\ Is(v2("dot", x, a), 0) /\ Is(v2("dot", x, b), 0) /\ IsV(vv("cross", b, a), neg(x)) /\ IsV(vv("cross", a, a), zero)
       /\ Is(v1("norm2", x), Sub(Mul(v1("norm2", a), v1("norm2", b)), Sq(v2("dot", a, b))))
       /\ IsV(vv("cross", x, d), vv("sub", vs("scale", b, v2("dot", a, d)), vs("scale", a, v2("dot", b, d))))
  /\ N = 2 => /\ Is(v2("cross", a, b), Opp(v2("cross", b, a)))
              /\ Is(Add(Sq(v2("cross", a, b)), Sq(v2("dot", a, b))), Mul(v1("norm2", a), v1("norm2", b)))
              /\ LET z == vv("complex_mul", a, b) cj(x) == Res(Call("varith", 2, "complex_conjugate", <<P(x), Out(2)>>), 2) IN
                 /\ Is(v1("norm2", z), Mul(v1("norm2", a), v1("norm2", b))) /\ IsV(vv("complex_mul", b, a), z)
                 /\ IsV(cj(z), vv("complex_mul", cj(a), cj(b))) /\ IsV(vv("complex_mul", a, cj(a)), <<v1("norm2", a), 0>>)
                 /\ (\E i \in 1..2 : b[i] # 0) => ClV(vv("complex_div", z, b), a)
(* C03 *)
p1(f, x) == Ret(Call("vclass", N, f, <<P(x)>>))
p2(f, x, y) == Ret(Call("vclass", N, f, <<P(x), P(y)>>))
ps(f, x, y) == Ret(Call("vclass", N, f, <<P(x), S1(y)>>))
c1(f, x) == Res(Call("vclass", N, f, <<P(x), Out(N)>>), 2)
swz(x, m) == Res(Call("vclass", N, "swizzle", <<P(x), N1(m), Out(N)>>), 3)
LClass== /\ Must(p2("eqv", a, b)) = (a = b) /\ Must(p2("eqv_eps", a, b)) = (a = b)
         /\ Must(ps("eq", a, s)) = (\A i \in 1..N : a[i] = s) /\ Must(ps("eq_eps", a, s)) = (\A i \in 1..N : a[i] = s)
         /\ Must(p1("eq_all", a)) = (\A i, j \in 1..N : a[i] = a[j])
         /\ Must(p1("isvalid", a)) /\ ~May(p1("isnan", a)) /\ ~May(p1("isinf", a))
         /\ IsV(vv("mul", c1("sign", a), c1("abs", a)), a)
         /\ Must(Ge(p1("max", a), p1("min", a))) /\ Is(p1("max", neg(a)), Opp(p1("min", a)))
         /\ Is(p1("max", a), MaxAll(T([i \in 1..N |-> a[i]]))) /\ IsV(c1("floor", a), a) /\ IsV(c1("fract", a), zero)
         /\ N > 2 => LET rev == IF N = 3 THEN 2 + 4 + 0 ELSE 3 + 8 + 16 IN IsV(swz(swz(a, rev), rev), a) /\ IsV(swz(a, rev), T([i \in 1..N |-> a[N + 1 - i]]))
(* C04 *)
mix(f, x, y, t) == Res(Call("vinterp", N, f, <<P(x), P(y), S1(t), Out(N)>>), 4)
LInterp== /\ \A f \in {"lerp", "lerpc", "smoothinterp", "smoothinterpc"} : IsV(mix(f, a, b, 0), a) /\ IsV(mix(f, a, b, 1), b)
          /\ \A f \in {"lerpc", "smoothinterpc"} : IsV(mix(f, a, b, -3), a) /\ IsV(mix(f, a, b, 4), b)
          /\ \A f \in {"lerp", "lerpc", "smoothinterp", "smoothinterpc"} : ClV(mix(f, a, b, K("0.5")), mix(f, b, a, K("0.5")))
          /\ N > 2 => IsV(mix("lerp", a, b, s), vv("add", a, vs("scale", vv("sub", b, a), s)))
          /\ LET q == Res(Call("vinterp", N, "smoothstep_uni", <<S1(0), S1(2), P(a), Out(N)>>), 4) IN
               \A i \in 1..N : (a[i] <= 0 => Is(q[i], 0)) /\ (a[i] >= 2 => Cl(q[i], 1)) /\ (a[i] = 1 => Cl(q[i], K("0.5")))
          /\ LET q == Res(Call("varith", N, "clamp", <<P(a), S1(-1), S1(1)>>), 1) IN \A i \in 1..N : Must(Ge(q[i], -1)) /\ Must(Le(q[i], 1)) /\ (a[i] \in -1..1 => Is(q[i], a[i]))
(* C05 *)
g2(f, x, y) == Res(Call("vgeom", N, f, <<P(x), P(y), Out(N)>>), 3)
unit(x) == Res(Call("vgeom", N, "normalize_to", <<P(x), Out(N)>>), 2)
isz(x) == \A i \in 1..N : x[i] = 0
par(x, y) == \A i, j \in 1..N : Near(Mul(x[i], y[j]), Mul(x[j], y[i]))
LGeo== /\ IF isz(a) THEN IsV(unit(a), zero) ELSE Cl(VNorm(unit(a)), 1) /\ par(unit(a), a) /\ Must(Gt(Dot(unit(a), a), 0))
       /\ ~isz(a) => LET q == Res(Call("vgeom", N, "scale_as", <<P(a), S1(s), Out(N)>>), 3) IN Cl(VNorm2(q), Sq(s)) /\ par(q, a) /\ (s # 0 => Must(IF s > 0 THEN Gt(Dot(q, a), 0) ELSE Lt(Dot(q, a), 0)))
       /\ ~isz(b) => LET q == g2("proj", a, b) IN par(q, b) /\ Near(Dot(VSub(a, q), b), 0) /\ Cl(Dot(q, b), Dot(a, b))
       /\ ~isz(a) /\ ~isz(b) => LET t == Ret(Call("vgeom", N, "angle", <<P(a), P(b)>>)) IN Near(Mul(Widen(Cos(t), 0, K("1e-5")), Mul(VNorm(a), VNorm(b))), Dot(a, b)) /\ May(Ge(t, 0)) /\ May(Le(t, Pi))
       /\ ClV(g2("center", a, b), g2("center", b, a)) /\ ClV(VScale(g2("center", a, b), 2), VAdd(a, b))
       /\ ~isz(b) => LET nb == unit(b) q == g2("reflect", a, nb) k == IF N = 4 THEN 3 ELSE N x(v) == Take(v, k) IN
            (N < 4 => ClV(g2("reflect", q, nb), a) /\ Cl(VNorm2(q), VNorm2(a)) /\ Near(Dot(q, nb), Opp(Dot(a, nb)))) /\ (N = 4 => Is(q[4], a[4]))
       /\ N # 2 => LET ff(x, y, z) == Res(Call("vgeom", N, "faceforward", <<P(x), P(y), P(z), Out(N)>>), 4) IN
            IsV(ff(a, b, a), IF Must(Lt(Dot(a, b), 0)) THEN a ELSE neg(a)) /\ Must(Le(Dot(ff(a, b, a), b), 0)) 
       /\ ~isz(a) /\ ~isz(b) => \A w \in 1..4 :           \* Snell's law
            LET eta == <<K("0.5"), 1, K("1.5"), 2>>[w] i == unit(a) nn == unit(b) q == Refract(i, nn, eta) IN
              May(q[1]) /\ ~Vacuous(q[2][1]) /\ Must(Lt(Dot(i, nn), 0)) => (Near(Widen(VNorm2(q[2]), 0, K("1e-4")), 1) /\
                  Near(Widen(Sub(VNorm2(i), Sq(Dot(i, nn))), 0, K("1e-4")), Div(Sub(VNorm2(q[2]), Sq(Dot(q[2], nn))), Sq(eta))) /\ May(Le(Dot(q[2], nn), 0)))
       /\ N = 3 /\ ~isz(b) => LET rot(x, t) == Res(Call("vgeom", 3, "rotate", <<P(x), S1(t), P(b)>>), 1) q == rot(a, K("0.7")) k == unit(b) IN
            /\ Cl(VNorm2(q), VNorm2(a)) /\ Near(Dot(q, k), Dot(a, k)) /\ ClV(rot(q, K("-0.7")), a) /\ ClV(rot(rot(a, 1), 2), rot(a, 3))
            /\ Cl(Dot(Cross(VSub(a, VScale(k, Dot(a, k))), VSub(q, VScale(k, Dot(q, k)))), k), Mul(Sin(K("0.7")), VNorm2(VSub(a, VScale(k, Dot(a, k))))))
       /\ N = 2 => LET rot(x, t) == Res(Call("vgeom", 2, "rotate", <<P(x), S1(t), Out(2)>>), 3) IN
            Cl(VNorm2(rot(a, s)), VNorm2(a)) /\ ClV(rot(rot(a, 1), 2), rot(a, 3)) /\ Cl(v2("cross", a, rot(a, K("0.7"))), Mul(Sin(K("0.7")), VNorm2(a)))
Ready == b # << >>
Ring == Ready => LRing
Fused == Ready => LFused
Metric == Ready => LMetric
Crosses == Ready => LCrosses
Class == Ready => LClass
Interp == Ready => LInterp
Geo == Ready => LGeo
===============================================================================
