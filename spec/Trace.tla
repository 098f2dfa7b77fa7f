-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded call must be an action of the machine.    *)
(* The state is the memory of the program; the recorded executions are the    *)
(* behaviours.  Mode is what is demanded of a call (module Judge).            *)
EXTENDS Judge, TraceIO, TLC
CONSTANT Mode
VARIABLES t, l, mem
vars == <<t, l, mem>>

Init == /\ t \in 1..NTraces
        /\ l = 0
        /\ mem = InitMem(t)

Judged(e, cs) == \A i \in Rejected(Mode, e, cs) : Report(t, l + 1, e, e.alts[i], cs, Why(Mode, e, cs, i))

Next == /\ l < TraceLen(t)
        /\ \E e \in {Ev(t, l + 1, mem)} :
              \E cs \in {Contract(e)} :
                 /\ Note(e, cs)
                 /\ Judged(e, cs)
                 /\ mem' = Patch(e.pre, e.alts[1].w)
        /\ l' = l + 1
        /\ t' = t

Spec == Init /\ [][Next]_vars
Accepted == Finish(TLCGet("distinct"))
===============================================================================
