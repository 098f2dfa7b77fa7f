-------------------------------- MODULE Print ---------------------------------
(* The print functions: the action appends to a text stream and changes        *)
(* nothing else.  What is appended names the kind and size of the object and    *)
(* lists its elements in order - matrices row by row - each within the print    *)
(* precision.                                                                   *)
EXTENDS Num, Text, Integers, Sequences, TLC, IOUtils, Json

CONSTANTS NWorkers
Log == ndJsonDeserialize(IOEnv.PRINTLOG)
Cfg == ndJsonDeserialize(IOEnv.PRINTCFG)[1]   \* prec (10^-precision as text), short (threshold as text), arch (words), none (printing compiled out), on, off (colour sequences)
NLog == Len(Log)

(* the elements, one row per printed line *)
Rows(e) == CASE e.kind = "mat"  -> [i \in 1..e.n |-> [j \in 1..e.n |-> e.vals[(j-1)*e.n + i]]]
             [] e.kind = "aabb" -> [i \in 1..2 |-> [j \in 1..3 |-> e.vals[(i-1)*3 + j]]]
             [] OTHER -> <<e.vals>>
Header(e) == CASE e.kind = "mat"  -> <<"Matrix", "(float" \o ToString(e.n) \o "x" \o ToString(e.n) \o "):">>
               [] e.kind = "vec"  -> <<"Vector", "(float" \o ToString(e.n) \o "):">>
               [] e.kind = "ivec" -> <<"Vector", "(int" \o ToString(e.n) \o "):">>
               [] e.kind = "quat" -> <<"Quaternion", "(float4):">>
               [] e.kind = "aabb" -> Fields("AABB (" \o e.tag \o "):")
Open(e)  == IF e.kind = "mat" THEN "|" ELSE "("
Close(e) == IF e.kind = "mat" THEN "|" ELSE ")"

(* a float is printed with the configured number of decimals; from the threshold on, with 6 significant digits *)
Half(x) == Mul(x, K("0.5"))
ReadsAs(e, f, w) ==
  IF e.kind = "ivec" THEN IsNumeral(f) /\ Must(Eq(Dec(f), Wide(w)))
  ELSE LET x == F(w) IN
    CASE IsNan(x) = 1 -> f \in {"nan", "-nan"}
      [] IsInf(x) = 1 -> f = (IF Must(Gt(x, 0)) THEN "inf" ELSE "-inf")
      [] OTHER -> /\ IsNumeral(f)
                  /\ May(Le(Abs(Sub(Dec(f), x)),
                            IF Must(Lt(x, K(Cfg.short))) THEN Half(KD(Cfg.prec)) ELSE Mul(KD("0.000005"), Abs(x))))
Row(e, line, vals) ==
  LET fs == Fields(line) IN
  /\ Len(fs) = Len(vals) + 2
  /\ fs[1] = Open(e) /\ fs[Len(fs)] = Close(e)
  /\ \A j \in 1..Len(vals) : ReadsAs(e, fs[j+1], vals[j])
Shown(e) ==
  LET Tx == Bare(e.text, Cfg.on, Cfg.off)  L == Lines(Tx)  R == Rows(e) IN
  /\ Len(L) = Len(R) + 1
  /\ Fields(L[1]) = Header(e)
  /\ \A i \in 1..Len(R) : Row(e, L[i+1], R[i])
  /\ (e.kind = "mat" => \A i \in 2..Len(R) : Width(L[i+1]) = Width(L[2]))    \* columns line up
  /\ Ended(Tx)
(* what is shown is coloured, and the terminal's colour is restored *)
Coloured(e) == LET M == Marks(e.text, Cfg.on, Cfg.off) IN
  IF Cfg.on = "" THEN M = <<>> ELSE M # <<>> /\ M[1] = "on" /\ M[Len(M)] = "off"
Accept(e) ==
  /\ e.kept
  /\ Cfg.none \/ Coloured(e)
  /\ CASE Cfg.none -> e.text = ""
       [] e.kind = "arch" -> Len(Lines(Bare(e.text, Cfg.on, Cfg.off))) = 1 /\ Fields(Lines(Bare(e.text, Cfg.on, Cfg.off))[1]) = <<"arch:">> \o Cfg.arch
       [] e.kind = "archname" -> Len(Lines(Bare(e.text, Cfg.on, Cfg.off))) = 1 /\ Fields(Lines(Bare(e.text, Cfg.on, Cfg.off))[1]) = <<"cglm", "arch:">> \o Cfg.arch
       [] OTHER -> Shown(e)

VARIABLES w, l
Init == w \in 1..NWorkers /\ l = w
Next == /\ l <= NLog
        /\ IF Accept(Log[l]) THEN TRUE ELSE PrintT(<<"MISMATCH", l>>)
        /\ l' = l + NWorkers
        /\ w' = w
Spec == Init /\ [][Next]_<<w, l>>
===============================================================================
