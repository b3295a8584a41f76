----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Trace validation of rs_job_iter: recorded calls of the real library,    *)
(* [ain, aout, eof, used, made, res], are stepped through the contract.    *)
(* Record: a case (see Contract) with out (all bytes delivered, the same   *)
(* in all its traces), fin (the final result) and traces.                  *)
(***************************************************************************)
EXTENDS Contract, IOUtils, Json
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES rid, tr, k, pos, n, verdict
vars == <<rid, tr, k, pos, n, verdict>>

\* the whole: final result and output are those of the reference
Whole(c) ==
  LET ref == RefOf(c) IN
  IF c.fin \notin ref.res THEN "wrong final result"
  ELSE IF ~Big(c) /\ (c.kind # "slack" \/ c.fin = DONE) /\ ~OutRight(c, ref, c.out) THEN "wrong output"
  ELSE "ok"
\* one call
CallVerdict(c, t, x) ==
  LET i == x[1] o == x[2] e == x[3] = 1 u == x[4] m == x[5] r == x[6] IN
  IF ~BoundsOk(i, o, u, m) THEN "call used or produced more than offered"
  ELSE IF r = BLOCKED
       THEN IF t THEN "trace ends blocked"
            ELSE IF BlockedOk(c, pos, n, i, o, e, m) THEN "ok"
            ELSE IF e THEN "blocked at end of input with output space left"
            ELSE "blocked although output was due or no more input was needed"
       ELSE IF ~t THEN "calls after the job was over"
       ELSE IF r # c.fin THEN "final result depends on the schedule"
       ELSE IF n + m # OutLen(c) THEN "recorded output does not add up"
       ELSE "ok"
Say(v) == IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, v>>)
Init == rid \in DOMAIN Recs /\ tr = 0 /\ k = 0 /\ pos = 0 /\ n = 0 /\ verdict = "pending"
Begin == /\ verdict = "pending" /\ verdict' = Whole(Recs[rid]) /\ Say(verdict')
         /\ UNCHANGED <<rid, tr, k, pos, n>>
Pick == /\ verdict = "ok" /\ tr = 0 /\ tr' \in DOMAIN Recs[rid].traces
        /\ UNCHANGED <<rid, k, pos, n, verdict>>
Call == LET c == Recs[rid]  t == c.traces[tr]  x == t[k + 1] IN
  /\ verdict = "ok" /\ tr # 0 /\ k < Len(t)
  /\ k' = k + 1 /\ pos' = pos + x[4] /\ n' = n + x[5] /\ UNCHANGED <<rid, tr>>
  /\ verdict' = CallVerdict(c, k + 1 = Len(t), x) /\ Say(verdict')
Next == Begin \/ Pick \/ Call
Spec == Init /\ [][Next]_vars
=============================================================================
