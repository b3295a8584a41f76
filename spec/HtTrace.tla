------------------------------- MODULE HtTrace -------------------------------
(***************************************************************************)
(* Histories of the real hash table against the abstract index.  Record:   *)
(* {size (requested), alias (a pair of hashes with one representation), ops}*)
(*   <<"a", hi, lo, class, id or -1>>   insertion, refused if -1           *)
(*   <<"f", hi, lo, class, id or -1>>   lookup                             *)
(*   <<"i", 0, 0, 0, ids...>>           iteration                          *)
(* log: accepted entries in order <<id, hi, lo, class>>.                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, IOUtils, Json, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES rid, k, log, verdict
vars == <<rid, k, log, verdict>>
First(S) == IF S = {} THEN -1 ELSE log[CHOOSE j \in S : \A i \in S : j <= i][1]
Exact(o) == {j \in DOMAIN log : log[j][2] = o[2] /\ log[j][3] = o[3] /\ log[j][4] = o[4]}
Norm(r, h) == IF h = r.alias[1] THEN r.alias[2] ELSE h
Loose(r, o) == {j \in DOMAIN log : Norm(r, <<log[j][2], log[j][3]>>) = Norm(r, <<o[2], o[3]>>) /\ log[j][4] = o[4]}
FindOk(r, o) == o[5] = First(Exact(o)) \/ o[5] = First(Loose(r, o))
Ids == {log[j][1] : j \in DOMAIN log}
IterOk(o) == Len(o) - 4 = Len(log) /\ {o[j] : j \in 5..Len(o)} = Ids
Init == rid \in DOMAIN Recs /\ k = 0 /\ log = <<>> /\ verdict = "ok"
Next == LET r == Recs[rid]  o == r.ops[k + 1] IN
  /\ verdict = "ok" /\ k < Len(r.ops)
  /\ k' = k + 1 /\ UNCHANGED rid
  /\ log' = IF o[1] = "a" /\ o[5] # -1 THEN Append(log, <<o[5], o[2], o[3], o[4]>>) ELSE log
  /\ verdict' = CASE o[1] = "a" -> IF o[5] = -1 /\ Len(log) < r.size THEN "insertion refused below the requested capacity" ELSE "ok"
                  [] o[1] = "f" -> IF FindOk(r, o) THEN "ok" ELSE "lookup does not return the first matching entry"
                  [] o[1] = "i" -> IF IterOk(o) THEN "ok" ELSE "iteration does not visit every entry once"
                  [] OTHER -> "ok"
  /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, verdict'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
