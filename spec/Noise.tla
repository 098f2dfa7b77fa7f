-------------------------------- MODULE Noise ---------------------------------
(* C22: classic gradient noise on the integer lattice, period 289.             *)
(* The lattice is exact integer arithmetic.  The gradient of a lattice point   *)
(* folds an octahedron at ties that only float rounding breaks, so the         *)
(* gradient tables follow the float32 steps of the definition; interpolation   *)
(* is over the reals again.                                                    *)
EXTENDS Curve

Perm(x) == ((34*x + 1) * x) % 289
FoldPerm(c) == LET h[i \in 0..Len(c)] == IF i = 0 THEN 0 ELSE Perm(h[i - 1] + c[i]) IN h[Len(c)]
(* index of a lattice point: the permutation folded over its coordinates *)
Lattice(c) == FoldPerm(T([i \in 1..Len(c) |-> c[i] % 289]))

Fract32(x) == Min(FSub(x, Floor(x)), K("0.99999994"))
(* x folded over the octahedron face when the last component is not positive *)
Fold(last, x) == Sel(Gt(last, 0), x, FSub(x, Sel(Lt(x, 0), K("-0.5"), K("0.5"))))
Gradient2(i) ==
  LET x == FSub(FMul(2, Fract32(FDiv(i, 41))), 1) IN
  <<FSub(x, Floor(FAdd(x, K("0.5")))), FSub(Abs(x), K("0.5"))>>
Seventh == K("0.142857142857142857")
Gradient3(i) ==
  LET q == FMul(i, Seventh)
      x == Fract32(q) y == FSub(Fract32(FMul(Floor(q), Seventh)), K("0.5"))
      z == FSub(FSub(K("0.5"), Abs(x)), Abs(y))
  IN <<Fold(z, x), Fold(z, y), z>>
Gradient4(i) ==
  LET q == FDiv(i, 7) r == FDiv(Floor(q), 7) s == FDiv(Floor(r), 6)
      x == FSub(Fract32(q), K("0.5")) y == FSub(Fract32(r), K("0.5")) z == FSub(Fract32(s), K("0.5"))
      w == FSub(FSub(FSub(K("0.75"), Abs(x)), Abs(z)), Abs(y))
  IN <<Fold(w, x), Fold(w, y), z, w>>
(* the builds divide by 41 and 7 or multiply by the reciprocals: quotients below 289/41 (2D) and 289/7 (4D) *)
Slack(n) == CASE n = 2 -> K("2e-6") [] n = 3 -> K("3e-7") [] n = 4 -> K("6e-6")
NormGradient(h) == LET g == Map1(LAMBDA x : Widen(x, 0, Slack(Len(h))), h) IN VScale(g, Sub(KD("1.79284291400159"), Mul(KD("0.85373472095314"), VNorm2(g))))
Table2 == T([i \in 1..289 |-> NormGradient(Gradient2(i - 1))])
Table3 == T([i \in 1..289 |-> NormGradient(Gradient3(i - 1))])
Table4 == T([i \in 1..289 |-> NormGradient(Gradient4(i - 1))])

Fade(t) == Mul(Pow(t, 3), Add(Mul(t, Sub(Mul(6, t), 15)), 10))
Bit(k, i) == (k \div 2^(i - 1)) % 2
Perlin(p) ==
  LET n == Len(p)
      base == T([i \in 1..n |-> ToInt(Floor(p[i]))])
      f == T([i \in 1..n |-> Min(FSub(p[i], base[i]), K("0.99999994"))])      \* (a float subtraction: exact but for negative p next to 0)
      fd == Map1(Fade, f)
      tab == CASE n = 2 -> Table2 [] n = 3 -> Table3 [] n = 4 -> Table4
      corner(k) == LET g == tab[Lattice(T([i \in 1..n |-> base[i] + Bit(k, i)])) + 1] IN
                   Dot(g, T([i \in 1..n |-> IF Bit(k, i) = 1 THEN Sub(f[i], 1) ELSE f[i]]))
      mix[d \in 0..n, k \in 0..15] ==       \* the first d axes of corner k's cell interpolated
        IF d = 0 THEN corner(k) ELSE Lerp1(mix[d - 1, k], mix[d - 1, k + 2^(d - 1)], fd[d])
  IN Mul(IF n = 2 THEN KD("2.3") ELSE KD("2.2"), mix[n, 0])
NoiseC(e) == <<R(Perlin(V(e, 1, e.n)))>>
===============================================================================
