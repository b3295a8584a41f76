----------------------------- MODULE DiagTrace -----------------------------
(***************************************************************************)
(* Recorded diagnostics of the real code.                                  *)
(*  {t:"hist", ops}: ops <<1, level>>, <<2, sink>>, <<3, severity, function *)
(*     name, message, texts received as <<sink, severity, text>>>>         *)
(*  {t:"op", level, sink, res, base (result without diagnostics), same     *)
(*     (1: output as without), why (description of res), msgs}             *)
(*  {t:"dump", roll, sl, entries, msgs}   {t:"err", texts: description per code}*)
(***************************************************************************)
EXTENDS Diag, IOUtils, Json, FiniteSets
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES rid, k, verdict
tvars == <<vars, rid, k, verdict>>
TInit == rid \in DOMAIN Recs /\ k = 0 /\ verdict = "ok" /\ Init
R == Recs[rid]
LogOk(o) == IF Passes(level, sink, o[2])
            THEN Len(o[5]) = 1 /\ o[5][1][1] = sink /\ o[5][1][2] = o[2] /\ TextOk(Text(o[2], o[3], o[4]), o[5][1][3])
            ELSE o[5] = <<>>
HistStep == /\ R.t = "hist" /\ k < Len(R.ops) /\ verdict = "ok"
            /\ LET o == R.ops[k + 1] IN
               /\ (o[1] = 1 /\ SetLevel(o[2])) \/ (o[1] = 2 /\ SetSink(o[2])) \/ (o[1] = 3 /\ Log(o[2]))
               /\ k' = k + 1
               /\ verdict' = IF o[1] = 3 /\ ~LogOk(o) THEN "message " \o ToString(k + 1) \o " not delivered as it should" ELSE "ok"
            /\ UNCHANGED rid
OpVerdict == IF R.res # R.base \/ R.same # 1 THEN "diagnostics change what an operation does"
             ELSE IF \E i \in DOMAIN R.msgs : ~Passes(R.level, R.sink, R.msgs[i][1]) THEN "message beyond the threshold"
             ELSE IF R.res > 2 /\ Passes(R.level, R.sink, 3) /\ ~\E i \in DOMAIN R.msgs : R.msgs[i][1] <= 3 /\ Contains(R.msgs[i][2], R.why)
             THEN "failure not reported" ELSE "ok"
DumpVerdict == IF Len(R.msgs) # Len(R.entries) + 1 THEN "wrong number of lines in the dump"
               ELSE IF \A i \in DOMAIN R.entries : DumpLineOk(R.msgs[i + 1], i - 1, SubSeq(R.entries[i], 1, 4), SubSeq(R.entries[i], 5, 4 + R.sl), R.roll) THEN "ok"
               ELSE "dump does not show the blocks"
\* every result code has a description of its own
ErrVerdict == IF \A i \in DOMAIN R.texts : R.texts[i] # "" /\ \A j \in DOMAIN R.texts : j # i => R.texts[i] # R.texts[j] THEN "ok" ELSE "results without a description of their own"
OneStep == /\ R.t # "hist" /\ k = 0 /\ k' = 1 /\ UNCHANGED <<vars, rid>>
           /\ verdict' = CASE R.t = "op" -> OpVerdict [] R.t = "dump" -> DumpVerdict [] R.t = "err" -> ErrVerdict
TNext == /\ HistStep \/ OneStep
         /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, verdict'>>)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
