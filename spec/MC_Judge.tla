------------------------------- MODULE MC_Judge -------------------------------
(* C23 .. C26: the judgements themselves.  Every small outcome of a few calls   *)
(* is enumerated (any word of the memory overwritten by any word of a small      *)
(* alphabet, including the neighbouring floats of the right answer) and the      *)
(* judgements accept exactly what they say they accept.                          *)
EXTENDS Judge, TLC
CONSTANT Full
VARIABLES c, x, y
vars == <<c, x, y>>
(* the words of the floats -1 .. 4, their successors, a NaN *)
One == 1065353216
Word(i) == CASE i = -1 -> -1082130432 [] i = 0 -> 0 [] i = 1 -> One [] i = 2 -> 1073741824 [] i = 3 -> 1077936128 [] i = 4 -> 1082130432
Words1 == {Word(i) : i \in -1..4} \cup {Word(i) + 1 : i \in 1..4} \cup {2143289344}
(* memory: guard, a (2 words), b (2 words), destination (2 words), guard *)
Vals == {<<a1, a2, b1, b2>> : a1 \in {0, 1}, a2 \in {2}, b1 \in IF Full THEN {-1, 2} ELSE {-1}, b2 \in {0, 2}}
Pre(v) == <<7, Word(v[1]), Word(v[2]), Word(v[3]), Word(v[4]), Word(1), Word(1), 9>>
Ev(v, fam, f, args) == [fam |-> fam, n |-> 2, m |-> -1, f |-> f, cc |-> 0, a |-> args, pre |-> Pre(v)]
IntPre(v) == <<7, v[1], v[2], v[3], v[4], 1, 1, 9>>
Calls == {Ev(v, "varith", "add", <<1, 3, 5>>) : v \in Vals} \cup {Ev(v, "varith", "dot", <<1, 3>>) : v \in Vals}
         \cup {[Ev(v, "ivec", "add", <<1, 3, 5>>) EXCEPT !.pre = IntPre(v)] : v \in Vals}
Init == c = << >> /\ x = << >> /\ y = << >>
Outcomes(e) == LET wd == IF e.fam = "ivec" THEN -2..4 ELSE Words1 IN
  IF e.f = "dot" THEN {[w |-> ww, ret |-> r] : ww \in {<< >>} \cup {<< <<k, 5>> >> : k \in 0..7}, r \in Words1}
  ELSE {[w |-> << <<5, p>>, <<6, q>> >> \o g, ret |-> 0] : p \in wd, q \in wd, g \in {<< >>} \cup {<< <<k, 5>> >> : k \in {0, 1, 2, 3, 4, 7}}}
Next == \/ c = << >> /\ c' \in Calls /\ UNCHANGED <<x, y>>
        \/ c # << >> /\ x = << >> /\ x' \in Outcomes(c) /\ UNCHANGED <<c, y>>
        \/ x # << >> /\ y = << >> /\ c.pre[2] = c.pre[6] /\ (Full \/ c.pre[5] = 0) /\ y' \in {o \in Outcomes(c) : o.w = << >> \/ o.w[1][2] \in {Word(0), Word(1), Word(2), 1, 2}} /\ UNCHANGED <<c, x>>
Spec == Init /\ [][Next]_vars
Num1(w) == IF c.fam = "ivec" THEN w ELSE CHOOSE i \in -1..4 : Word(i) = w
want == [i \in 1..2 |-> Num1(c.pre[1 + i]) + Num1(c.pre[3 + i])]
prod == Num1(c.pre[2]) * Num1(c.pre[4]) + Num1(c.pre[3]) * Num1(c.pre[5])
enc(i) == IF c.fam = "ivec" THEN i ELSE Word(i)
Right(o) == IF c.f = "dot" THEN o.w = << >> /\ (prod \in -1..4 => o.ret = Word(prod)) /\ (prod \notin -1..4 => FALSE)
            ELSE Len(o.w) = 2 /\ o.w[1][2] = enc(want[1]) /\ o.w[2][2] = enc(want[2])
Alt(o, builds, apis) == [w |-> o.w, ret |-> o.ret, builds |-> builds, apis |-> apis]
Call1(alts) == [fam |-> c.fam, n |-> c.n, m |-> c.m, f |-> c.f, cc |-> 0, a |-> c.a, pre |-> c.pre, alts |-> alts]
cs == Contract(c)
Exact == x # << >> /\ y = << >> => LET e == Call1(<<Alt(x, {"p"}, {"i"})>>) IN
  /\ (Rejected("conform", e, cs) = {}) <=> Right(x)
  /\ (Rejected("pure", e, cs) = {}) <=> (\A i \in 1..Len(x.w) : c.f = "add" /\ x.w[i][1] \in {5, 6})
  /\ Rejected("agree", e, cs) = {}                                        \* alone, there is nothing to disagree with
  /\ (Rejected("agree", Call1(<<Alt(x, {"p"}, {"c"})>>), cs) = {}) <=> Right(x)
Agreement == y # << >> => LET e == Call1(<<Alt(x, {"p"}, {"i"}), Alt(y, {"q"}, {"i", "c"})>>) r == Rejected("agree", e, cs) IN
  /\ (r = {}) <=> (Right(x) = Right(y))
  /\ (Right(x) /\ ~Right(y) => r = {2}) /\ (Right(y) /\ ~Right(x) => r = {1})
  /\ Rejected("pure", Call1(<<Alt(x, {"p"}, {"i"}), Alt(y, {"p"}, {"i"})>>), cs) # {}          \* one build, two outcomes
===============================================================================
