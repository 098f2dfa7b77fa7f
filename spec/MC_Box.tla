-------------------------------- MODULE MC_Box --------------------------------
(* C19: boxes are the products of intervals: a lattice with merge as least      *)
(* upper bound and crop as intersection; the tests are what they say of points. *)
EXTENDS MCLib
CONSTANT N
VARIABLES b, c, x
vars == <<b, c, x>>
Lo == IF N = 2 THEN -1..1 ELSE 0..1
Pts == {T(v) : v \in [1..N -> Lo \cup {2}]}
Boxes == {l \o h : l \in {T(v) : v \in [1..N -> Lo]}, h \in Pts}
Good(bx) == \A i \in 1..N : bx[i] <= bx[N + i]
Init == b = << >> /\ c = << >> /\ x = << >>
Next == \/ b = << >> /\ b' \in {k \in Boxes : Good(k)} /\ UNCHANGED <<c, x>>
        \/ b # << >> /\ c = << >> /\ x = << >> /\ c' \in {k \in Boxes : Good(k)} /\ UNCHANGED <<b, x>>
        \/ b # << >> /\ x = << >> /\ c = << >> /\ x' \in {T(v) : v \in [1..N -> (IF N = 2 THEN (0 - 3)..3 ELSE (0 - 1)..3)]} /\ UNCHANGED <<b, c>>
Spec == Init /\ [][Next]_vars
two == c # << >>
fn(f, args) == Call("box", N, f, args)
lo(k) == Take(k, N)  up(k) == T([i \in 1..N |-> k[N + i]])
In(pt, k) == \A i \in 1..N : k[i] <= pt[i] /\ pt[i] <= k[N + i]
Sub1(k, l) == \A i \in 1..N : l[i] <= k[i] /\ k[N + i] <= l[N + i]      \* k inside l
Ints(v) == T([i \in 1..Len(v) |-> Nearest(v[i])])
mg(k, l) == Ints(Res(fn("merge", <<P(k), P(l), Out(2*N)>>), 3))
cr(k, l) == Ints(Res(fn("crop", <<P(k), P(l), Out(2*N)>>), 3))
d2(u, v) == LET f[i \in 0..N] == IF i = 0 THEN 0 ELSE f[i - 1] + (u[i] - v[i]) * (u[i] - v[i]) IN f[N]
Holds(cnd, prop) == IF prop THEN Must(cnd) ELSE Must(Not3(cnd))
Lattice2 == two =>
  /\ Sub1(b, mg(b, c)) /\ Sub1(c, mg(b, c)) /\ mg(b, c) = mg(c, b) /\ mg(b, b) = b /\ cr(b, b) = b
  /\ \A k \in {0, 1} : Sub1(mg(b, c), T([i \in 1..2*N |-> IF i <= N THEN IF b[i] < c[i] THEN b[i] - k ELSE c[i] - k ELSE IF b[i] > c[i] THEN b[i] + k ELSE c[i] + k]))
  /\ \A pt \in Pts : In(pt, cr(b, c)) <=> (In(pt, b) /\ In(pt, c))
  /\ mg(b, cr(b, mg(b, c))) = b /\ cr(b, mg(b, c)) = b                                                       \* absorption
  /\ Holds(Ret(fn("aabb", <<P(b), P(c)>>)), \E pt \in Pts : In(pt, b) /\ In(pt, c))
  /\ Holds(Ret(fn("contains", <<P(b), P(c)>>)), \A pt \in Pts : In(pt, c) => In(pt, b))
  /\ (N = 3 => \A k \in {T([i \in 1..6 |-> IF i <= 3 THEN 0 ELSE 1])} :        \* cropped, but never smaller than the clamp box
        LET u == Res(fn("crop_until", <<P(b), P(c), P(k), Out(6)>>), 4) IN IsV(u, mg(k, cr(b, c))))
Empty == LET iv == Res(fn("invalidate", <<Out(2*N)>>), 1) IN b # << >> /\ c = << >> =>
  /\ Must(Not3(Ret(fn("isvalid", <<P(iv)>>)))) /\ Must(Ret(fn("isvalid", <<P(b)>>)))
  /\ mg(iv, b) = b /\ mg(b, iv) = b
  /\ (N = 2 => IsV(Res(fn("zero", <<P(b)>>), 1), Zeros(2*N)))
Measures == b # << >> /\ c = << >> => LET sz == VSub(up(b), lo(b)) IN
  /\ Cl(Sq(Ret(fn("size", <<P(b)>>))), VNorm2(sz)) /\ Cl(Mul(2, Ret(fn("radius", <<P(b)>>))), Ret(fn("size", <<P(b)>>)))
  /\ LET m == Res(fn("center", <<P(b), Out(N)>>), 2) IN ClV(VSub(m, lo(b)), VSub(up(b), m))
Points == x # << >> =>
  /\ Holds(Ret(fn("point", <<P(b), P(x)>>)), In(x, b))
  /\ \A r \in 0..3 : Holds(Ret(fn(IF N = 3 THEN "sphere" ELSE "circle", <<P(b), P(x \o <<r>>)>>)), \E pt \in Pts : In(pt, b) /\ d2(pt, x) <= r * r)
(* the transformed box is the smallest one around the transformed corners *)
Mats == IF N = 3 THEN << << <<0, 2, 0, 0>>, <<0 - 1, 1, 0, 0>>, <<1, 0, 0 - 3, 0>>, <<4, 5, 6, 1>> >>, << <<1, 1, 0, 0>>, <<0, 1, 1, 0>>, <<0 - 1, 0, 1, 0>>, <<0, 0, 0, 1>> >> >>
        ELSE << << <<0, 2, 0>>, <<0 - 1, 1, 0>>, <<4, 5, 1>> >>, << <<1, 1, 0>>, <<0 - 2, 1, 0>>, <<0, 0 - 1, 1>> >> >>
Moved == b # << >> /\ c = << >> /\ x = << >> => \A j \in 1..2 :
  LET t == Res(fn("transform", <<P(b), PM1(Mats[j]), Out(2*N)>>), 3)
      pts == T([k \in 1..2^N |-> MulV(Mats[j], T([i \in 1..N+1 |-> IF i = N + 1 THEN 1 ELSE IF Field(k - 1, i - 1, 1) = 1 THEN b[N + i] ELSE b[i]]))])
  IN \A i \in 1..N : Is(t[i], MinAll(T([k \in 1..2^N |-> pts[k][i]]))) /\ Is(t[N + i], MaxAll(T([k \in 1..2^N |-> pts[k][i]])))
===============================================================================
