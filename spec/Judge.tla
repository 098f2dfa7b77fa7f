-------------------------------- MODULE Judge --------------------------------
(* What a property demands of the recorded alternatives of a call: the set of *)
(* alternatives it rejects, and why.                                          *)
(*   conform  every alternative satisfies the operation's contract            *)
(*   agree    builds/APIs must not differ: it is an error when some           *)
(*            alternatives satisfy the contract and others do not (where the  *)
(*            inline API lacks the operation the contract alone decides)      *)
(*   pure     the effect is confined to the destination objects, and a build  *)
(*            does the same words for the same call, whatever ran before it,  *)
(*            beside it, or lies next to its objects                          *)
EXTENDS Contracts

Valid(e, cs, alt) == Conforms(cs, e.pre, alt) /\ Relation(e, alt)
Invalid(e, cs) == {i \in 1..Len(e.alts) : ~Valid(e, cs, e.alts[i])}
Inline(e) == \E i \in 1..Len(e.alts) : "i" \in e.alts[i].apis
Disagreeing(e, cs) ==
    IF Inline(e) /\ Len(e.alts) = 1 THEN {}
    ELSE LET bad == Invalid(e, cs) IN IF Inline(e) /\ Cardinality(bad) = Len(e.alts) THEN {} ELSE bad
Varies(e, i) == \E j \in 1..(i-1) : e.alts[i].builds \cap e.alts[j].builds # {}
Impure(e, cs) == {i \in 1..Len(e.alts) : ~Framed(cs, e.alts[i].w) \/ Varies(e, i)}
Rejected(mode, e, cs) == CASE mode = "conform" -> Invalid(e, cs)
                           [] mode = "agree"   -> Disagreeing(e, cs)
                           [] mode = "pure"    -> Impure(e, cs)
Why(mode, e, cs, i) == CASE mode = "conform" -> IF Conforms(cs, e.pre, e.alts[i]) THEN "relation" ELSE "contract"
                         [] mode = "agree"   -> "differs"
                         [] mode = "pure"    -> IF Framed(cs, e.alts[i].w) THEN "history" ELSE "frame"
===============================================================================
