--------------------------------- MODULE Num ---------------------------------
(* The numbers of the specification.                                          *)
(*                                                                            *)
(* The contracts of this specification are written over real numbers; the     *)
(* implementation computes in 32-bit floats.  Num is the bridge: a number is  *)
(* an interval guaranteed to contain the result of every reasonable float     *)
(* evaluation of the formula (each operation widens it by 4 half-ulps of its  *)
(* operands), or exactly NaN / an infinity, or "any" when float evaluation    *)
(* leaves the result undetermined (cancellation into a zero divisor, possible *)
(* overflow).  Conditions are three-valued: 0 false, 1 true, 2 undetermined   *)
(* by rounding; Sel over an undetermined condition is the hull of both arms.  *)
(*                                                                            *)
(* TLC replaces every operator below by the method of the same name of        *)
(* java/Num.class.  Where the model is checked exhaustively over small exact   *)
(* domains (the MC modules), the same contracts run over the exact integers: Num's      *)
(* operators are exact on integers of magnitude below 2^20 (radius 0).        *)
(* The right-hand sides given here are that exact reading.                    *)
EXTENDS Integers, Sequences

T(f) == f                     \* force a function on 1..n into a tuple
F(bits) == CHOOSE x : TRUE    \* the number a 32-bit word denotes as an IEEE-754 float
K(s) == CHOOSE x : TRUE       \* the float nearest to a decimal literal
KD(s) == CHOOSE x : TRUE      \* a real constant known to float precision
Undet(d) == CHOOSE x : TRUE   \* the undetermined number
Widen(x, rel, abs) == x       \* x with a documented approximation error
Between(x, y) == x            \* hull
Add(x, y) == x + y
Sub(x, y) == x - y
Opp(x) == 0 - x
Mul(x, y) == x * y
Sq(x) == x * x
Div(x, y) == x \div y
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Sqrt(x) == CHOOSE y \in Nat : y * y = x
MaxAll(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE IF f[i-1] > s[i] THEN f[i-1] ELSE s[i] IN f[Len(s)]
MinAll(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE IF f[i-1] < s[i] THEN f[i-1] ELSE s[i] IN f[Len(s)]
Sum(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE Add(f[i-1], s[i]) IN f[Len(s)]
Dot(s, t) == Sum([i \in 1..Len(s) |-> Mul(s[i], t[i])])
Sin(x) == CHOOSE y : TRUE
Cos(x) == CHOOSE y : TRUE
Tan(x) == CHOOSE y : TRUE
Acos(x) == CHOOSE y : TRUE
Asin(x) == CHOOSE y : TRUE
Atan(x) == CHOOSE y : TRUE
Atan2(y, x) == CHOOSE z : TRUE
SinRatio(t, h) == CHOOSE y : TRUE   \* sin(t h) / sin(h), 0 < h < pi
Exp2(x) == 2^x
Floor(x) == x
ToInt(x) == x                  \* an integral number as an integer
Near(x, y) == x = y           \* may the two numbers be equal?
Nearest(x) == CHOOSE i \in Int : Near(x, i)      \* the integer a tight number denotes
Fmod(x, y) == CHOOSE z : TRUE
Rnd32(x) == x                 \* nearest float
FAdd(x, y) == x + y           \* single float32 operations, correctly rounded
FSub(x, y) == x - y           \*   (only where the float grid itself is the definition)
FMul(x, y) == x * y
FDiv(x, y) == x \div y
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
Lt(x, y) == IF x < y THEN 1 ELSE 0
Le(x, y) == IF x <= y THEN 1 ELSE 0
Gt(x, y) == IF x > y THEN 1 ELSE 0
Ge(x, y) == IF x >= y THEN 1 ELSE 0
Eq(x, y) == IF x = y THEN 1 ELSE 0
IsNan(x) == 0
IsInf(x) == 0
Not3(c) == IF c = 2 THEN 2 ELSE 1 - c
And3(c, d) == IF c = 0 \/ d = 0 THEN 0 ELSE IF c = 1 /\ d = 1 THEN 1 ELSE 2
Or3(c, d) == IF c = 1 \/ d = 1 THEN 1 ELSE IF c = 0 /\ d = 0 THEN 0 ELSE 2
All3(s) == IF \E i \in 1..Len(s) : s[i] = 0 THEN 0 ELSE IF \A i \in 1..Len(s) : s[i] = 1 THEN 1 ELSE 2
Any3(s) == IF \E i \in 1..Len(s) : s[i] = 1 THEN 1 ELSE IF \A i \in 1..Len(s) : s[i] = 0 THEN 0 ELSE 2
Sel(c, x, y) == IF c = 1 THEN x ELSE y
May(c) == c # 0
Must(c) == c = 1
Within(x, bits) == TRUE       \* does the float with these bits satisfy the number?
AllWithin(xs, ws) == TRUE
Same(x, y) == x = y           \* equal words
Vacuous(x) == FALSE           \* is the number undetermined?
CDiv(a, b) == IF (a >= 0) = (b > 0) THEN Abs(a) \div Abs(b) ELSE 0 - (Abs(a) \div Abs(b))   \* C's truncating division
CMod(a, b) == a - b * CDiv(a, b)
Wide(i) == i                  \* a 32-bit integer as a number (no 32-bit overflow)
Field(x, sh, w) == (x \div 2^sh) % 2^w
===============================================================================
