----------------------------- MODULE JobsTrace -----------------------------
(***************************************************************************)
(* Recorded lives of real jobs, stepped through Jobs.  Record: {jobs,      *)
(* order: <<what, job>>..., got: per job <<result or -1, bytes delivered,  *)
(* 0 new / 1 live or over / 2 freed, calls>>}.                             *)
(***************************************************************************)
EXTENDS Jobs, IOUtils, Json
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES rid, verdict
tvars == <<vars, rid, verdict>>
Init == rid \in DOMAIN Recs /\ verdict = "run" /\ InitFor(Recs[rid].jobs)
Act(a, j) == (a = BEGIN /\ Begin(j)) \/ (a = STEP /\ Step(j)) \/ (a = FREE /\ Free(j)) \/ (a = BUILD /\ Build(j)) \/ (a = FREESIG /\ FreeSig(j))
TNext == LET r == Recs[rid]  k == Len(hist) + 1 IN
         /\ verdict = "run" /\ k <= Len(r.order) /\ Act(r.order[k][1], r.order[k][2]) /\ UNCHANGED <<rid, verdict>>
JobOk(j, g) == /\ g[4] = calls[j] /\ g[2] = sent[j]
               /\ g[3] = IF st[j] = "new" THEN 0 ELSE IF st[j] = "freed" THEN 2 ELSE 1
               /\ g[1] = IF calls[j] = N(j) THEN jobs[j].res ELSE -1
Final(r) == IF Len(hist) < Len(r.order) THEN "history is not one of the specification"
            ELSE IF \A j \in DOMAIN jobs : JobOk(j, r.got[j]) THEN "ok" ELSE "interleaved job differs from the same job alone"
\* also reached when the next recorded action is not enabled: then rejected
End == /\ verdict = "run" /\ (Len(hist) = Len(Recs[rid].order) \/ ~ENABLED TNext)
       /\ verdict' = Final(Recs[rid]) /\ UNCHANGED <<vars, rid>>
       /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, verdict'>>)
Spec == Init /\ [][TNext \/ End]_tvars
=============================================================================
