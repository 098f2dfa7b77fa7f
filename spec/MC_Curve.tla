------------------------------- MODULE MC_Curve -------------------------------
(* C21: curves interpolate their end points and agree with their matrix forms;  *)
(* easings start at 0, end at 1, mirror each other and do not run backwards.    *)
EXTENDS MCLib
VARIABLES p, i
vars == <<p, i>>
H == 16
Init == p = << >> /\ i = -1
Next == \/ p = << >> /\ i = -1 /\ p' \in {T(v) : v \in [1..4 -> -2..2]} /\ i' = -1
        \/ i = -1 /\ i' \in 0..H /\ p' = p
Spec == Init /\ [][Next]_vars
s == Div(i, H)
fn(f, args) == Ret(Call("curve", -1, f, args))
bez(t) == fn("bezier", <<S1(t), S1(p[1]), S1(p[2]), S1(p[3]), S1(p[4])>>)
her(t) == fn("hermite", <<S1(t), S1(p[1]), S1(p[2]), S1(p[3]), S1(p[4])>>)
both == p # << >> /\ i >= 0
Ends == p # << >> /\ i = -1 => /\ Is(bez(0), p[1]) /\ Is(bez(1), p[4]) /\ Is(her(0), p[1]) /\ Is(her(1), p[4])
Agreeing == both =>
  /\ Cl(bez(s), fn("smc", <<S1(s), PM1(BezM), P(p)>>)) /\ Cl(her(s), fn("smc", <<S1(s), PM1(HerM), P(<<p[1], p[4], p[2], p[3]>>)>>))
  /\ Cl(bez(s), fn("hermite", <<S1(s), S1(p[1]), S1(3 * (p[2] - p[1])), S1(3 * (p[4] - p[3])), S1(p[4])>>))        \* the same cubic
  /\ May(Le(MinAll(p), bez(s))) /\ May(Le(bez(s), MaxAll(p)))                                                      \* within the hull
  /\ Cl(bez(s), fn("bezier", <<S1(Sub(1, s)), S1(p[4]), S1(p[3]), S1(p[2]), S1(p[1])>>))                           \* backwards
  /\ LET l(x, y) == Lerp1(x, y, s) IN Cl(bez(s), l(l(l(p[1], p[2]), l(p[2], p[3])), l(l(p[2], p[3]), l(p[3], p[4]))))     \* repeated interpolation
(* solving for the parameter: the parameter the value came from is admitted, others are not *)
Solves == both /\ p[1] < p[2] /\ p[2] < p[3] /\ p[3] < p[4] /\ i \in 1..(H - 1) =>
  LET e == Call("curve", -1, "decasteljau", <<S1(bez(s)), S1(p[1]), S1(p[2]), S1(p[3]), S1(p[4])>>) alt(x) == [w |-> << >>, ret |-> x] IN
  CurveRel(e, alt(s)) /\ ~CurveRel(e, alt(Add(s, K("0.01"))))
ease(f, t) == Ret(Call("ease", -1, f, <<S1(t)>>))
InOut == {"sine", "quad", "cubic", "quart", "quint", "exp", "circ", "back", "elast", "bounce"}
Rough(x, y) == Near(Widen(x, 0, K("1e-3")), y)                            \* (1 - 2^-10 is where the exponential easing starts)
alone == p = << >> /\ i >= 0
Easings == alone =>
  /\ Cl(ease("linear", s), s)
  /\ \A k \in InOut :
     /\ Rough(ease(k \o "_in", 0), 0) /\ Rough(ease(k \o "_out", 0), 0) /\ Rough(ease(k \o "_inout", 0), 0)
     /\ Rough(ease(k \o "_in", 1), 1) /\ Rough(ease(k \o "_out", 1), 1) /\ Rough(ease(k \o "_inout", 1), 1)
     /\ Rough(Add(ease(k \o "_in", s), ease(k \o "_out", Sub(1, s))), 1)
     /\ Rough(Add(ease(k \o "_inout", s), ease(k \o "_inout", Sub(1, s))), 1)
     /\ Rough(ease(k \o "_inout", Half(1)), Half(1))
     /\ (k # "back" /\ 2 * i <= H => Rough(Mul(2, ease(k \o "_inout", s)), ease(k \o "_in", Mul(2, s))))
Forward == alone /\ i < H => \A k \in InOut \ {"back", "elast", "bounce"} : \A f \in {k \o "_in", k \o "_out", k \o "_inout"} :
     LET x == ease(f, s) y == ease(f, Div(i + 1, H)) IN May(Le(x, y)) /\ May(Le(0, x)) /\ May(Le(y, 1)) /\ ~Must(Eq(x, y))
===============================================================================
