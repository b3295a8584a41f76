------------------------------ MODULE JobsGen ------------------------------
(* Histories of Jobs for the scenarios in the file named by SCENS: with
   VIEW View one per transition, without it every one. *)
EXTENDS Jobs, IOUtils, Json
Scens == TLCEval(ndJsonDeserialize(IOEnv.SCENS))
VARIABLE sc
Init == sc \in DOMAIN Scens /\ InitFor(Scens[sc].jobs)
GNext == Next /\ UNCHANGED sc
Ended == /\ \A j \in DOMAIN jobs : st[j] \in {"freed", "new"} /\ sig[j] \in {"none", "gone"}
         /\ \A j \in DOMAIN jobs : st[j] = "new" => Dep(j) > 0 /\ sig[Dep(j)] = "gone"
\* emit at the end (every history), or at every transition
EmitEnd == IF Scens[sc].all = 1 /\ Ended' THEN PrintT(<<"HIST", sc, hist'>>) ELSE TRUE
EmitAny == IF Scens[sc].all = 0 THEN PrintT(<<"HIST", sc, hist'>>) ELSE TRUE
Spec == Init /\ [][GNext]_<<vars, sc>>
GView == <<sc, st, calls, sig, heap, IF Scens[sc].all = 1 THEN hist ELSE <<>>>>
Emit == EmitEnd /\ EmitAny
=============================================================================
