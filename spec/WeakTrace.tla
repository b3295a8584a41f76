------------------------------ MODULE WeakTrace ------------------------------
(***************************************************************************)
(* Histories of the real rolling checksums: record {kind, in, ops}, ops of *)
(* [op, n, count, hi, lo] with op u (append n bytes) i (byte in) o (oldest *)
(* out) r (slide) z (reset) d (nothing); count and <<hi, lo>> are what the *)
(* code reported after the operation.  The window is in[a+1..b].           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Hashes, Words, IOUtils, Json, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES rid, k, a, b, verdict
vars == <<rid, k, a, b, verdict>>
Digest(r, x, y) == IF r.kind = 0 THEN Rollsum(SubSeq(r.in, x + 1, y)) ELSE RabinKarp(SubSeq(r.in, x + 1, y))
Init == rid \in DOMAIN Recs /\ k = 0 /\ a = 0 /\ b = 0 /\ verdict = "ok"
Next == LET r == Recs[rid]  o == r.ops[k + 1] IN
  /\ verdict = "ok" /\ k < Len(r.ops)
  /\ k' = k + 1 /\ UNCHANGED rid
  /\ CASE o[1] = "u" -> b' = b + o[2] /\ a' = a
       [] o[1] = "i" -> b' = b + 1 /\ a' = a
       [] o[1] = "o" -> b' = b /\ a' = a + 1
       [] o[1] = "r" -> b' = b + 1 /\ a' = a + 1
       [] o[1] = "z" -> b' = b /\ a' = b
       [] o[1] = "d" -> b' = b /\ a' = a
  /\ verdict' = IF o[3] # b' - a' THEN "wrong byte count"
                ELSE IF <<o[4], o[5]>> # Digest(r, a', b') THEN "checksum differs from one computed from scratch" ELSE "ok"
  /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, verdict'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
