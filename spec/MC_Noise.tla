------------------------------- MODULE MC_Noise -------------------------------
(* C22: gradient noise vanishes on the lattice, repeats with period 289, is     *)
(* bounded, and is continuous across cell borders.                              *)
EXTENDS MCLib
CONSTANT N
VARIABLES c, q
vars == <<c, q>>
Qs == IF N = 4 THEN {0, 3} ELSE 0..3
Init == c = << >> /\ q = << >>
Next == \/ c = << >> /\ c' \in {T(v) : v \in [1..N -> IF N = 4 THEN {-1, 5, 288} ELSE IF N = 3 THEN {-1, 0, 7, 288} ELSE {-290, -3, -1, 0, 1, 2, 17, 40, 41, 100, 288}]} /\ q' = << >>
        \/ c # << >> /\ q = << >> /\ q' \in {T(v) : v \in [1..N -> Qs]} /\ c' = c
Spec == Init /\ [][Next]_vars
noise(v) == Ret(Call("noise", N, "perlin", <<P(v)>>))
pt == T([i \in 1..N |-> Add(c[i], Div(q[i], 4))])
on == q # << >>
Lat == c # << >> /\ q = << >> => Near(noise(c), 0) /\ Tight(noise(c))
Bounded == on => May(Le(Abs(noise(pt)), 1))
Shift(v, i, d) == T([j \in 1..N |-> IF j = i THEN Add(v[j], d) ELSE v[j]])
Periodic == on => \A i \in 1..N : Near(noise(pt), noise(Shift(pt, i, 289)))
(* just below a border and on it *)
Continuous == on => \A i \in 1..N : q[i] = 0 => Near(Widen(noise(Shift(pt, i, K("-0.0009765625"))), 0, K("0.006")), noise(pt))
Varies == c # << >> /\ q = << >> => \E i \in 1..N : ~Near(noise(Shift(T([j \in 1..N |-> Add(c[j], Half(1))]), i, 1)), noise(T([j \in 1..N |-> Add(c[j], Half(1))])))
===============================================================================
