---------------------------- MODULE FileApiTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the file helpers.  Record: {ops: [[k, a, b, c]    *)
(* ...], obs: [{o: outcome, v: value, b: bytes, w: 1 if bytes beyond those *)
(* delivered were changed, fs: contents of the files 3..10 afterwards}]    *)
(* ...]}.  An outcome of "exit" ends the record; code is its exit status,  *)
(* msgs what was reported.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, IOUtils, Json, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES rid, k, fs, hs, verdict
vars == <<rid, k, fs, hs, verdict>>
A == INSTANCE FileApi WITH over <- FALSE, hist <- <<>>, MaxOps <- 0, Names <- {}, Modes <- {}, Poss <- {}, Lens <- {}
Fs(x) == [i \in 3..10 |-> x[i - 2]]
Res(r, f, h) ==
  LET op == r.ops[k + 1]  x == r.obs[k + 1]
      F(f2, h2, why) == [fs |-> f2, hs |-> h2, v |-> IF why # "ok" THEN why ELSE IF Fs(x.fs) # f2 THEN "a file is not what it should be" ELSE "ok"]
  IN CASE op[1] = 1 -> (LET o == A!Outcome(f, op[2], op[3], op[4] = 1)  f2 == A!After(f, op[2], op[3], o) IN
                        F(f2, IF o = "exit" THEN h ELSE Append(h, A!Handle(op[2], op[3], o)),
                          IF x.o # o THEN (IF o = "exit" THEN "opened what must not be" ELSE IF x.o = "exit" THEN "refuses to open" ELSE "opens another file")
                          ELSE IF o = "exit" /\ (r.code # A!IOERR \/ r.msgs = 0) THEN "refusal not reported" ELSE "ok"))
       [] op[1] = 2 -> F([f EXCEPT ![h[op[2]].n] = @ \o A!Fresh(k, op[3])], h, IF x.v # op[3] THEN "cannot write" ELSE "ok")
       [] op[1] = 3 -> F(f, [h EXCEPT ![op[2]].open = h[op[2]].std], IF x.v # 0 THEN "closing fails" ELSE "ok")
       [] op[1] = 4 -> F(f, h, IF x.v # A!SizeOf(f, h[op[2]]) THEN "wrong size" ELSE "ok")
       [] OTHER -> F(f, [h EXCEPT ![op[2]].err = @ \/ x.v = A!IOERR],
                     IF ~A!CopyOk(f, h[op[2]], op[3], op[4], x.v, x.b) THEN "reads something else than is there" ELSE IF x.w = 1 THEN "writes beyond what it delivers" ELSE "ok")
Say(v) == IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, v>>)
Init == rid \in DOMAIN Recs /\ k = 0 /\ fs = A!Fs0 /\ hs = <<>> /\ verdict = "run"
Step == LET r == Recs[rid]  s == Res(r, fs, hs) IN
  /\ verdict = "run" /\ k < Len(r.obs) /\ k' = k + 1 /\ UNCHANGED rid
  /\ fs' = s.fs /\ hs' = s.hs /\ verdict' = IF s.v = "ok" THEN "run" ELSE s.v
  /\ Say(s.v)
\* a history ends early only by a refusal
End == LET r == Recs[rid]  v == IF Len(r.obs) = Len(r.ops) \/ (r.obs # <<>> /\ r.obs[Len(r.obs)].o = "exit") THEN "ok" ELSE "crash" IN
  /\ verdict = "run" /\ k = Len(r.obs) /\ verdict' = v /\ Say(v) /\ UNCHANGED <<rid, k, fs, hs>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
