-------------------------------- MODULE Curve ---------------------------------
(* C21: curves and easing functions.                                            *)
EXTENDS Space

OneMinus(t) == Sub(1, t)
Pow(t, n) == LET p[k \in 1..n] == IF k = 1 THEN t ELSE Mul(t, p[k - 1]) IN p[n]
Bezier(s, p) == LET r == OneMinus(s) IN
  Sum(<<Mul(p[1], Pow(r, 3)), Mul(Mul(3, p[2]), Mul(s, Sq(r))), Mul(Mul(3, p[3]), Mul(Sq(s), r)), Mul(p[4], Pow(s, 3))>>)
Hermite(s, p0, t0, t1, p1) ==
  LET s2 == Sq(s) s3 == Pow(s, 3) h == Sub(Mul(3, s2), Mul(2, s3)) IN
  Sum(<<Mul(p0, OneMinus(h)), Mul(t0, Add(Sub(s3, Mul(2, s2)), s)), Mul(t1, Sub(s3, s2)), Mul(p1, h)>>)
Cubic(s) == <<Pow(s, 3), Sq(s), s, 1>>
(* the matrix forms: coefficients of s^3, s^2, s, 1 for each of p0 c0 c1 p1, and for each of p0 p1 t0 t1 *)
BezM == << <<0 - 1, 3, 0 - 3, 1>>, <<3, 0 - 6, 3, 0>>, <<0 - 3, 3, 0, 0>>, <<1, 0, 0, 0>> >>
HerM == << <<2, 0 - 3, 0, 1>>, <<0 - 2, 3, 0, 0>>, <<1, 0 - 2, 1, 0>>, <<1, 0 - 1, 0, 0>> >>
BezierOf(e) == T([i \in 1..4 |-> S(e, i + 1)])
Tiny == K("1e-20")
Below(e) == Lt(Sub(S(e, 1), S(e, 2)), Tiny)       \* at or before the start
Beyond(e) == Lt(Sub(S(e, 5), S(e, 1)), Tiny)      \* at or after the end
CurveC(e) ==
  CASE e.f = "bezier"  -> <<R(Bezier(S(e, 1), BezierOf(e)))>>
    [] e.f = "hermite" -> <<R(Hermite(S(e, 1), S(e, 2), S(e, 3), S(e, 4), S(e, 5)))>>
    [] e.f = "smc"     -> LET A == M(e, 2, 4, 4) c == V(e, 3, 4) IN <<R(Dot(Cubic(S(e, 1)), MulV(A, c)))>>
    [] e.f = "decasteljau" -> <<R(Sel(Below(e), 0, Sel(Beyond(e), 1, Between(0, 1))))>>
(* strictly inside, the curve takes the requested value at the parameter returned *)
CurveRel(e, alt) ==
  (e.f = "decasteljau" /\ Must(And3(Not3(Below(e)), Not3(Beyond(e))))) =>
     LET p == BezierOf(e) u == F(alt.ret) big == MaxAll(Map1(Abs, p)) IN
     Near(Widen(Bezier(u, p), 0, Add(Mul(big, K("2e-5")), K("2e-9"))), S(e, 1))

(* ---- easing: each curve is given by its "in" form; "out" mirrors it, "inout" joins both halves ---- *)
PiHalf == KD("1.57079632679489661923")
Bk == KD("1.70158")
Frac(a, b) == Div(a, b)
Elastic(t) == Mul(Sin(Mul(Mul(13, PiHalf), t)), Exp2(Mul(10, Sub(t, 1))))
(* elastic out, written out so that rounding of the phase is accounted for at t + 1 *)
ElasticOut(t) == Add(Mul(Sin(Mul(Mul(-13, PiHalf), Add(t, 1))), Exp2(Mul(-10, t))), 1)
BounceOut(t) ==
  LET t2 == Sq(t)
      q(a, b, c) == Add(Sub(Mul(a, t2), Mul(b, t)), c)
  IN Sel(Lt(t, Frac(4, 11)), Div(Mul(121, t2), 16),
     Sel(Lt(t, Frac(8, 11)), q(Frac(363, 40), Frac(99, 10), Frac(17, 5)),
     Sel(Lt(t, Frac(9, 10)), q(Frac(4356, 361), Frac(35442, 1805), Frac(16061, 1805)),
         q(Frac(54, 5), Frac(513, 25), Frac(268, 25)))))
Root(x) == Sqrt(x)
EaseIn(k, t) ==
  CASE k = "linear" -> t
    [] k = "sine"  -> Add(Sin(Mul(Sub(t, 1), PiHalf)), 1)
    [] k = "quad"  -> Pow(t, 2)
    [] k = "cubic" -> Pow(t, 3)
    [] k = "quart" -> Pow(t, 4)
    [] k = "quint" -> Pow(t, 5)
    [] k = "exp"   -> Sel(Eq(t, 0), 0, Exp2(Mul(10, Sub(t, 1))))
    [] k = "circ"  -> Sub(1, Root(Sub(1, Sq(t))))
    [] k = "back"  -> Mul(Sq(t), Sub(Mul(Add(Bk, 1), t), Bk))
    [] k = "elast" -> Elastic(t)
    [] k = "bounce" -> Sub(1, BounceOut(OneMinus(t)))
EaseOut(k, t) ==
  CASE k = "sine" -> Sin(Mul(t, PiHalf))
    [] k = "quad" -> Opp(Mul(t, Sub(t, 2)))
    [] k = "circ" -> Root(Mul(Sub(2, t), t))
    [] k = "exp"  -> Sel(Eq(t, 1), 1, Sub(1, Exp2(Mul(-10, t))))
    [] k = "elast" -> ElasticOut(t)
    [] k = "bounce" -> BounceOut(t)
    [] OTHER -> Sub(1, EaseIn(k, OneMinus(t)))
EaseBoth(k, t) ==
  LET a == Mul(2, t) b == Sub(a, 1) s == Mul(Bk, KD("1.525"))
      first == Half(EaseIn(k, a))
      second == Half(Add(EaseOut(k, b), 1))
      n == Sub(a, 2)
  IN CASE k = "sine" -> Half(Sub(1, Cos(Mul(t, Mul(2, PiHalf)))))
       [] k = "exp"  -> Sel(Eq(t, 0), 0, Sel(Eq(t, 1), 1, Sel(Lt(t, K("0.5")), Half(Exp2(Sub(Mul(20, t), 10))), Add(Mul(K("-0.5"), Exp2(Add(Mul(-20, t), 10))), 1))))
       [] k = "back" -> Sel(Lt(a, 1), Half(Mul(Sq(a), Sub(Mul(Add(s, 1), a), s))), Half(Add(Mul(Sq(n), Add(Mul(Add(s, 1), n), s)), 2)))
       [] k = "elast" -> Sel(Lt(t, K("0.5")), first, Half(Add(Mul(Sin(Mul(Mul(-13, PiHalf), a)), Exp2(Mul(-10, b))), 2)))
       [] k = "circ" -> Sel(Lt(t, K("0.5")), Half(Sub(1, Root(Sub(1, Sq(a))))), Half(Add(Root(Mul(Sub(3, a), b)), 1)))
       [] OTHER -> Sel(Lt(t, K("0.5")), first, second)
Kinds == {"linear", "sine", "quad", "cubic", "quart", "quint", "exp", "circ", "back", "elast", "bounce"}
EaseC(e) ==
  LET t == S(e, 1)
      k == CHOOSE k \in Kinds : e.f \in {k, k \o "_in", k \o "_out", k \o "_inout"}
  IN <<R(CASE e.f = k -> EaseIn(k, t) [] e.f = k \o "_in" -> EaseIn(k, t) [] e.f = k \o "_out" -> EaseOut(k, t) [] e.f = k \o "_inout" -> EaseBoth(k, t))>>
===============================================================================
