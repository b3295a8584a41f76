----------------------------- MODULE FileTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the whole-file operations, the callback-driven loop    *)
(* and jobs with a basis callback.  Record: {ref (results right without a  *)
(* fault), olen (length of the right output), res, wrote (bytes that got   *)
(* out), prefix (1: they are a prefix of the right output), ins, outs      *)
(* (statistics, -1 if not recorded), ev}.  Events <<tag, a, b>>:           *)
(*   r  read of the input file:  a asked, b got, -1 failed                 *)
(*   b  read of the basis file    s  seek in it, b = -1 failed             *)
(*   w  write of the output file: a asked, b taken, -1 failed              *)
(*   i, o  application callbacks, b their result                           *)
(*   c  basis callback, b its result                                       *)
(* This is the observable part of FileLoop: Truthful, step by step.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, IOUtils, Json, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
DONE == 0  BLOCKED == 1  IOERR == 100
VARIABLES rid, k, fault, tag, nin, nout, verdict
vars == <<rid, k, fault, tag, nin, nout, verdict>>
Code(x) == IF x[1] \in {"r", "b", "w", "s"} THEN (IF x[3] = -1 THEN IOERR ELSE 0)
           ELSE IF x[1] = "c" THEN (IF x[3] = BLOCKED THEN 0 ELSE x[3])
           ELSE x[3]
\* what must not happen once something failed (fault, by an event tagged tag)
Late(x) == IF fault = 0 THEN "ok"
           ELSE IF tag = "w" /\ x[1] = "w" /\ x[3] > 0 THEN "output written after a failed write"
           ELSE IF tag \in {"i", "o", "c"} /\ x[1] \in {"i", "o", "c"} THEN "callback called after a failure"
           ELSE "ok"
IsRef(r) == \E j \in DOMAIN r.ref : r.ref[j] = r.res
Final(r) ==
  IF r.prefix # 1 \/ r.wrote > r.olen THEN "output is not a prefix of the right output"
  ELSE IF fault # 0 THEN IF r.res = fault THEN "ok" ELSE IF r.res = DONE THEN "success reported in spite of a failure" ELSE "wrong error reported"
  ELSE IF ~IsRef(r) THEN "wrong result"
  ELSE IF r.res = DONE /\ r.wrote # r.olen THEN "success reported for incomplete output"
  ELSE IF r.res = DONE /\ r.ins >= 0 /\ r.ins # nin THEN "input bytes miscounted"
  ELSE IF r.res = DONE /\ r.outs >= 0 /\ r.outs # nout THEN "output bytes miscounted"
  ELSE "ok"
Say(v) == IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, v>>)
Init == rid \in DOMAIN Recs /\ k = 0 /\ fault = 0 /\ tag = "" /\ nin = 0 /\ nout = 0 /\ verdict = "run"
Event == LET r == Recs[rid]  x == r.ev[k + 1]  l == Late(x) IN
  /\ verdict = "run" /\ k < Len(r.ev)
  /\ k' = k + 1 /\ UNCHANGED rid
  /\ nin' = nin + (IF x[1] = "r" /\ x[3] > 0 THEN x[3] ELSE 0)
  /\ nout' = nout + (IF x[1] = "w" /\ x[3] > 0 THEN x[3] ELSE 0)
  /\ fault' = IF fault = 0 THEN Code(x) ELSE fault
  /\ tag' = IF fault = 0 /\ Code(x) # 0 THEN x[1] ELSE tag
  /\ verdict' = IF l = "ok" THEN "run" ELSE l
  /\ Say(l)
End == LET r == Recs[rid] IN
  /\ verdict = "run" /\ k = Len(r.ev)
  /\ verdict' = Final(r) /\ Say(verdict') /\ UNCHANGED <<rid, k, fault, tag, nin, nout>>
Next == Event \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
