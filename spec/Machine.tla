------------------------------- MODULE Machine -------------------------------
(* The abstract machine a cglm program runs on.                               *)
(*                                                                            *)
(* State: `mem`, a flat array of 32-bit words holding every object of the     *)
(* program (vectors, matrices, boxes, out parameters ...) together with guard *)
(* words around them.  An action is one library call                          *)
(*    e = [op, fam, n, m, f, cc, a, pre]                                      *)
(* op/fam/n/m/f name the operation (vec3_add = family varith, n = 3, f = add),*)
(* cc is the clip-control configuration, a its arguments (the address of each *)
(* object argument, the bits of each scalar argument), pre the memory it is   *)
(* called in.                                                                 *)
(*                                                                            *)
(* A contract describes the action as a tuple of clauses:                     *)
(*    <<"W", addr, numbers>>   these words become floats satisfying these     *)
(*    <<"I", addr, words>>     these words become exactly these               *)
(*    <<"A", addr, n>>         these n words may change (see the relation)    *)
(*    <<"R", number>>  <<"RI", int>>  <<"RN", number>>  <<"RB", cond>>        *)
(*                             the returned float / int / int / bool          *)
(* Everything a contract does not mention keeps its value: that frame         *)
(* condition is part of every action.                                         *)
EXTENDS Num, Integers, Sequences, FiniteSets

Words(mem, addr, n) == T([i \in 1..n |-> mem[addr + i]])
Floats(mem, addr, n) == T([i \in 1..n |-> F(mem[addr + i])])
Patch(mem, ws) == [i \in 1..Len(mem) |->
    LET hits == {j \in 1..Len(ws) : ws[j][1] = i - 1} IN
    IF hits = {} THEN mem[i] ELSE ws[CHOOSE j \in hits : \A k \in hits : k <= j][2]]
After(mem, ws, addr, n) == Words(Patch(mem, ws), addr, n)
Framed(cs, ws) == \A i \in 1..Len(ws) : \E j \in 1..Len(cs) :
    /\ cs[j][1] \in {"W", "I", "A"}
    /\ ws[i][1] >= cs[j][2]
    /\ ws[i][1] < cs[j][2] + (IF cs[j][1] = "A" THEN cs[j][3] ELSE Len(cs[j][3]))

(* arguments *)
V(e, k, n) == Floats(e.pre, e.a[k], n)                       \* vector of n floats
VO(e, k, o, n) == Floats(e.pre, e.a[k] + o, n)               \* n floats at offset o
S(e, k) == F(e.a[k])                                         \* scalar float
M(e, k, c, r) == T([i \in 1..c |-> Floats(e.pre, e.a[k] + r*(i-1), r)])   \* c columns of r rows
IV(e, k, n) == Words(e.pre, e.a[k], n)                       \* vector of n ints
(* clauses *)
W(e, k, v) == <<"W", e.a[k], v>>
WO(e, k, o, v) == <<"W", e.a[k] + o, v>>
Flat(A) == LET r == Len(A[1]) IN T([i \in 1..(Len(A)*r) |-> A[((i-1) \div r) + 1][((i-1) % r) + 1]])
WM(e, k, A) == <<"W", e.a[k], Flat(A)>>
I(e, k, v) == <<"I", e.a[k], v>>
Free(e, k, n) == <<"A", e.a[k], n>>
R(x) == <<"R", x>>
RI(x) == <<"RI", x>>
RN(x) == <<"RN", x>>
RB(c) == <<"RB", c>>
(* the state after alternative alt of event e, for relational clauses *)
PV(e, alt, k, n) == LET w == After(e.pre, alt.w, e.a[k], n) IN T([i \in 1..n |-> F(w[i])])
PVO(e, alt, k, o, n) == LET w == After(e.pre, alt.w, e.a[k] + o, n) IN T([i \in 1..n |-> F(w[i])])
PM(e, alt, k, c, r) == LET w == After(e.pre, alt.w, e.a[k], c*r) IN T([j \in 1..c |-> T([i \in 1..r |-> F(w[(j-1)*r + i])])])

(* does alternative alt = [w |-> writes, ret |-> returned word] satisfy clause c? *)
ClauseOK(c, pre, alt) ==
  CASE c[1] = "W"  -> AllWithin(c[3], After(pre, alt.w, c[2], Len(c[3])))
    [] c[1] = "I"  -> Same(c[3], After(pre, alt.w, c[2], Len(c[3])))
    [] c[1] = "R"  -> Within(c[2], alt.ret)
    [] c[1] = "RI" -> Same(c[2], alt.ret)
    [] c[1] = "RN" -> Near(c[2], Wide(alt.ret))
    [] c[1] = "RB" -> alt.ret \in {0, 1} /\ (IF alt.ret = 1 THEN May(c[2]) ELSE May(Not3(c[2])))
    [] OTHER -> TRUE
Conforms(cs, pre, alt) ==
  /\ Framed(cs, alt.w)
  /\ \A i \in 1..Len(cs) : ClauseOK(cs[i], pre, alt)
===============================================================================
