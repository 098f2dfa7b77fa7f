------------------------------ MODULE MC_Layout -------------------------------
(* C28: a program that places objects of the library's types one after another *)
(* the way a compiler does: each at the next address its alignment allows.     *)
(* What the layout contract promises is enough for the library: every SIMD     *)
(* access to an object is aligned wherever the object ended up, arrays of      *)
(* objects have no holes, objects never overlap, and with alignment disabled   *)
(* nothing is padded at all.                                                   *)
EXTENDS MCLib
CONSTANT Depth
VARIABLES unaligned, avx, base, objs
vars == <<unaligned, avx, base, objs>>
(* <<rows, columns, float?>> *)
Types == ({2, 3, 4} \X {1} \X {TRUE, FALSE}) \cup ({2, 3, 4} \X {2, 3, 4} \X {TRUE})
Size(t) == 4 * t[1] * t[2]
Al(t) == Alignment(t[1], t[2], t[3], unaligned, avx)
Up(a, k) == k * ((a + k - 1) \div k)
Top == IF objs = << >> THEN base ELSE LET o == objs[Len(objs)] IN o[2] + o[3] * Size(o[1])
Init == unaligned \in BOOLEAN /\ avx \in BOOLEAN /\ base \in {0, 4, 8, 12, 16, 20} /\ objs = << >>
Next == /\ Len(objs) < Depth
        /\ \E t \in Types, n \in 1..2 : objs' = Append(objs, <<t, Up(Top, Al(t)), n>>)
        /\ UNCHANGED <<unaligned, avx, base>>
Spec == Init /\ [][Next]_vars
(* the byte ranges the kernels load from an object of type t: <<offset, bytes>> *)
Loads(t) == IF ~t[3] THEN {} ELSE
  (IF t[1] = 4 THEN {<<16 * j, 16>> : j \in 0..(t[2] - 1)} ELSE {})
  \cup (IF t[1] = 2 /\ t[2] = 2 THEN {<<0, 16>>} ELSE {})
  \cup (IF avx /\ t[1] = 4 /\ t[2] = 4 THEN {<<0, 32>>, <<32, 32>>} ELSE {})
(* what a build reports about a type is what the contract describes *)
Report(t) == <<Size(t), Al(t), IF unaligned THEN 1 ELSE 0, IF avx THEN 1 ELSE 0>>
             \o T([i \in 1..(NameWays(t[1], t[2]) * t[1] * t[2]) |-> 4 * ((i - 1) % (t[1] * t[2]))])
Reported == objs = << >> => \A t \in Types :
  /\ LayoutOK(t[1], t[2], t[3], Report(t))
  /\ \A i \in 1..Len(Report(t)) : i \notin {3, 4} => ~LayoutOK(t[1], t[2], t[3], [Report(t) EXCEPT ![i] = @ + 4])
Aligned == ~unaligned => \A i \in 1..Len(objs) : LET o == objs[i] IN
  \A k \in 0..(o[3] - 1) : \A l \in Loads(o[1]) : (o[2] + k * Size(o[1]) + l[1]) % l[2] = 0
Strides == \A i \in 1..Len(objs) : LET o == objs[i] IN Size(o[1]) % Al(o[1]) = 0       \* elements of an array touch
Apart == \A i, j \in 1..Len(objs) : i < j => objs[i][2] + objs[i][3] * Size(objs[i][1]) <= objs[j][2]
Packed == unaligned => \A i \in 1..Len(objs) : objs[i][2] = (IF i = 1 THEN base ELSE objs[i - 1][2] + objs[i - 1][3] * Size(objs[i - 1][1]))
(* the columns of a matrix are vectors: a column may be passed wherever a vector of that length is wanted *)
Columns == ~unaligned => \A i \in 1..Len(objs) : LET o == objs[i] c == <<o[1][1], 1, TRUE>> IN
  (o[1][2] > 1 /\ o[1][3]) => \A j \in 0..(o[1][2] - 1) : (o[2] + j * Size(c)) % Al(c) = 0
===============================================================================
