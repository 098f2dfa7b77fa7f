------------------------------- MODULE TraceIO -------------------------------
(* Executions recorded from the compiled library (see harness/driver.c).      *)
(* Each event carries the call and, for every library build and API that      *)
(* offers the operation, what that build did ("alternatives", equal ones      *)
(* merged).                                                                   *)
EXTENDS Integers, Sequences
NTraces == CHOOSE n \in Nat : TRUE
TraceLen(t) == CHOOSE n \in Nat : TRUE
InitMem(t) == CHOOSE m : TRUE
Ev(t, l, mem) == CHOOSE e : TRUE      \* event l of trace t, called in memory mem
Report(t, l, e, alt, cs, why) == TRUE \* record a rejected alternative
Note(e, cs) == TRUE                   \* bookkeeping for the coverage report
Finish(n) == TRUE                      \* write the report; TRUE iff nothing was rejected
===============================================================================
