------------------------------ MODULE OomTrace ------------------------------
(***************************************************************************)
(* Recorded runs with refused allocations, stepped through the observable  *)
(* part of Oom.  Record: {st: stages <<name, result, right, refusals       *)
(* before, refusals after, change of objects held>>, end ("exit" "abort"   *)
(* "other"), open (name of the stage cut off), msgs (errors reported),     *)
(* fails (refusals in all), lazy (1: drop all after a refused index),      *)
(* rdiff (1: one run of the tool, right: its output is right, code)}       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, IOUtils, Json, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
DONE == 0  MEMERR == 102
VARIABLES rid, k, due, verdict
vars == <<rid, k, due, verdict>>
\* the stages still due; a refused one stays due
Order == <<"sig", "load", "index", "delta", "delta", "patch", "free">>
Stage(r, x) ==
  IF due = <<>> \/ (x[1] # Head(due) /\ ~(x[1] = "free" /\ r.lazy = 1 /\ Head(due) = "index")) THEN "stages out of order"
  ELSE IF x[2] = DONE THEN (IF x[3] = 1 THEN "ok" ELSE IF x[1] = "free" THEN "memory lost" ELSE "success with a wrong result")
  ELSE IF x[5] = x[4] THEN "failure though nothing was refused"
  ELSE IF x[2] # MEMERR THEN "a refused allocation is reported as something else"
  ELSE IF x[6] # 0 THEN "a call that reports a memory error keeps or loses memory"
  ELSE "ok"
Final(r) ==
  IF r.rdiff = 1 THEN (IF r.end = "abort" THEN (IF r.msgs > 0 THEN "ok" ELSE "aborted without a word")
                       ELSE IF r.end # "exit" THEN "crash"
                       ELSE IF r.code = 0 /\ r.right = 0 THEN "success with a wrong result" ELSE "ok")
  ELSE IF r.end = "exit" THEN (IF due = <<>> THEN "ok" ELSE "ended early")
  ELSE IF r.end = "abort" THEN (IF r.fails = 0 \/ r.open = "" \/ r.open = "free" THEN "aborted for no reason" ELSE IF r.msgs = 0 THEN "aborted without a word" ELSE "ok")
  ELSE "crash"
Say(v) == IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, v>>)
Init == rid \in DOMAIN Recs /\ k = 0 /\ due = Order /\ verdict = "run"
Step == LET r == Recs[rid]  x == r.st[k + 1]  s == Stage(r, x) IN
  /\ verdict = "run" /\ k < Len(r.st) /\ k' = k + 1 /\ UNCHANGED rid
  /\ due' = IF x[2] # DONE \/ due = <<>> THEN due ELSE IF x[1] = "free" THEN <<>> ELSE Tail(due)
  /\ verdict' = IF s = "ok" THEN "run" ELSE s
  /\ Say(s)
End == LET r == Recs[rid] IN
  /\ verdict = "run" /\ k = Len(r.st) /\ verdict' = Final(r) /\ Say(verdict') /\ UNCHANGED <<rid, k, due>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
