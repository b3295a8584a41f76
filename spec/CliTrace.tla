------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the real tool: {sc: scenario, code: exit status, outs: *)
(* what can be said of the output afterwards}.  Accepted if some behaviour *)
(* of Cli ends that way.                                                   *)
(***************************************************************************)
EXTENDS Cli, IOUtils, Json
Recs == TLCEval(ndJsonDeserialize(IOEnv.RECS))
VARIABLE rid
Init == rid \in DOMAIN Recs /\ InitFor(Recs[rid].sc)
Matches == code = Recs[rid].code /\ \E k \in DOMAIN Recs[rid].outs : Recs[rid].outs[k] = data
TNext == /\ Next /\ UNCHANGED rid
         /\ IF ~Running' /\ Matches' THEN PrintT(<<"ACCEPT", rid>>) ELSE TRUE
Spec == Init /\ [][TNext]_<<vars, rid>>
=============================================================================
